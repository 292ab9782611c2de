"""C13: transports can be stopped and restarted at any time (LifeMC.tla, LifeTrace.tla)."""
from lib import life

CFG = """SPECIFICATION Spec
CONSTANTS Runs = %d Dials = %d Calls = %d Cap = 1 Mistake = "%s" Record = %s
%s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANTS AddressFree AllClosed NoClash OfThisRun Once"


def run(c):
    c.assumptions = ["the address is not used by anybody else", "no connection is asked for before the transport has been run for the first time",
                     "a transport is not added to and removed from a stack by two goroutines at the same time",
                     "schedules of the implementation are sampled (real sockets, real time)"]
    c.model("LifeMC", CFG % (3, c.pick(3, 4), c.pick(2, 3), "none", "FALSE", INV), "three runs")
    c.model("LifeMC", CFG % (2, 3, 2, "none", "FALSE", "PROPERTIES ComesToRest"), "two runs, liveness")
    for m, p in dict(late="AddressFree", leak="AllClosed", hold="NoClash", shared="OfThisRun").items():
        c.model("LifeMC", CFG % (2, 3, 2, m, "FALSE", "INVARIANTS " + p), "mistake: " + m, expect_violation=p)
    c.model("LifeMC", CFG % (2, 3, 2, "stuck", "FALSE", "PROPERTIES ComesToRest"), "mistake: stuck", expect_violation="Temporal propert")
    hs = c.generate("LifeMC", CFG % (2, 2, 1, "none", "TRUE", "INVARIANTS Emit"), "two runs", limit=c.pick(300, 3000))
    life.judge(c, [life.of_model(c, h) for h in hs], "behaviours of the model")
    life.judge(c, life.full(c, c.pick(60, 600)), "nobody takes the connections")
    life.judge(c, life.random_scripts(c, c.pick(2500, 12000)), "random histories")
    life.judge(c, life.random_scripts(c, c.pick(500, 3000)), "random histories (race detector)", race=True)
