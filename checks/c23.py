"""C23: nothing is kept of what has ended (ChurnMC.tla, ChurnTrace.tla)."""
from lib import churn

CFG = """SPECIFICATION Spec
CONSTANTS Conns = {%s} MaxOps = %d Mistake = "%s" Record = %s
%s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANTS NothingKept Pruned"


def run(c):
    c.assumptions = ["reachability is what the garbage collector finds; up to four ended connections may linger in loop variables",
                     "endpoints without a data listener; the application empties the receive channels"]
    c.model("ChurnMC", CFG % ("1, 2", c.pick(8, 12), "none", "FALSE", INV), "two connections")
    c.model("ChurnMC", CFG % ("1, 2, 3", c.pick(7, 10), "none", "FALSE", INV), "three connections")
    c.model("ChurnMC", CFG % ("1, 2", 7, "none", "FALSE", "PROPERTIES Gone"), "two connections, liveness")
    for m, p in (("cache", "NothingKept"), ("late", "NothingKept"), ("list", "Pruned")):
        c.model("ChurnMC", CFG % ("1, 2", 8, m, "FALSE", "INVARIANTS " + p), "mistake: " + m, expect_violation=p)
    c.model("ChurnMC", CFG % ("1, 2", 7, "timer", "FALSE", "PROPERTIES Gone"), "mistake: timer", expect_violation="Temporal propert")
    hs = c.generate("ChurnMC", CFG % ("1, 2", 6, "none", "TRUE", "INVARIANTS Emit"), "comings and goings", limit=c.pick(160, 3000))
    churn.judge(c, [churn.of_model(c, h, 12) for h in hs], "behaviours of the model, again and again")
    churn.judge(c, churn.random_scripts(c, c.pick(160, 3000)), "random comings and goings")
    churn.judge(c, churn.parts(c, c.pick(48, 600)), "endpoints and transports come and go")
    churn.judge(c, churn.random_scripts(c, c.pick(24, 300), real=True), "clients of real servers come and go", real=True)
