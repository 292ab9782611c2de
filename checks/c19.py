"""C19: a data listener sees every message once and in order (ListenMC.tla, ListenTrace.tla)."""
from lib import listen

CFG = """SPECIFICATION Spec
CONSTANTS Listeners = {%s} MaxMsg = %d MaxOps = %d Mistake = "%s" Record = %s
%s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANTS OneAtATime InOrder Kept Installed Fresh"


def run(c):
    c.assumptions = ["a listener that is being replaced concurrently with an arrival may still get that message"]
    c.model("ListenMC", CFG % ("1, 2", c.pick(3, 4), c.pick(4, 5), "none", "FALSE", INV), "two listeners")
    c.model("ListenMC", CFG % ("1, 2", 2, 3, "none", "FALSE", "PROPERTIES Served"), "two listeners, liveness")
    for m, p in dict(spawn="OneAtATime", drain="Kept", deaf="Fresh").items():
        c.model("ListenMC", CFG % ("1, 2", 3, 3, m, "FALSE", "INVARIANTS " + p), "mistake: " + m, expect_violation=p)
    c.model("ListenMC", CFG % ("1", 2, 3, "gone", "FALSE", "PROPERTIES Served"), "mistake: gone", expect_violation="Temporal propert")
    hs = c.generate("ListenMC", CFG % ("1, 2", 2, 3, "none", "TRUE", "INVARIANTS Emit"), "two listeners", limit=c.pick(2000, 20000))
    hs += c.generate("ListenMC", CFG % ("1, 2, 3", 6, 6, "none", "TRUE", "INVARIANTS Emit"), "three listeners",
                     simulate=(c.pick(3000, 30000), 60), limit=c.pick(1000, 10000))
    listen.judge(c, [listen.of_model(c, h) for h in hs], "behaviours of the model")
    listen.judge(c, listen.random_scripts(c, c.pick(1000, 10000)), "random histories")
    listen.judge(c, listen.flicker(c, c.pick(200, 3000)), "a listener that goes and comes back")
    listen.judge(c, listen.random_scripts(c, c.pick(200, 1500)), "random histories (race detector)", race=True)
