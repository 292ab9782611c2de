"""C20: a client transport connects once within its retry budget (RetryMC.tla, RetryTrace.tla)."""
from lib import retry

CFG = """SPECIFICATION Spec
CONSTANTS Budget = %d Runs = %d MaxTime = %d MaxToggles = %d Mistake = "%s" Record = %s
%s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANTS WithinBudget Regular AtMostOne FullBudget AtOnce\nPROPERTIES NoneAfterStop"


def run(c):
    c.assumptions = ["an attempt is answered at once (a server that neither accepts nor refuses is not simulated)",
                     "the server comes and goes and the transport is stopped between two attempts, not at the same instant"]
    for b in range(4):
        c.model("RetryMC", CFG % (b, 2, c.pick(14, 18), 3, "none", "FALSE", INV), "budget %d" % b)
    for m, p in dict(again="AtMostOne", keep="FullBudget", late="AtOnce", over="WithinBudget").items():
        c.model("RetryMC", CFG % (2, 2, 12, 2, m, "FALSE", "INVARIANTS " + p), "mistake: " + m, expect_violation=p)
    for b in (1, 2, 3):
        hs = c.generate("RetryMC", CFG % (b, 2, c.pick(9, 11), 2, "none", "TRUE", "INVARIANTS Emit"), "budget %d" % b, limit=c.pick(250, 3000))
        retry.judge(c, [retry.of_model(c, h, b) for h in hs], "behaviours of the model, budget %d" % b)
    retry.judge(c, retry.random_scripts(c, c.pick(600, 6000)), "random histories")
