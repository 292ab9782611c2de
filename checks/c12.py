"""C12: every event reaches every component once (EventsMC.tla, EventsTrace.tla)."""
from lib import events

CFG = """SPECIFICATION Spec
CONSTANTS Eps = {%s} Threads = {%s} MaxOps = %d MaxDepth = %d Mistake = "%s" Record = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "NoneTwice OnlyThose AllTold OwnRemoval OwnAddition Quiet NoDoubles"


def run(c):
    c.assumptions = ["processors and features are appended before the stack runs, Run does not overlap with other calls"]
    c.model("EventsMC", CFG % ("1, 2", "1", c.pick(4, 5), 3, "none", "FALSE", INV), "one thread, nested")
    c.model("EventsMC", CFG % ("1, 2", "1, 2", c.pick(3, 4), 2, "none", "FALSE", INV), "two threads, nested")
    for m, p in dict(own="OwnAddition", silent="OwnRemoval", always="Quiet", live="AllTold").items():
        c.model("EventsMC", CFG % ("1, 2", "1", 4, 2, m, "FALSE", p), "mistake: " + m, expect_violation=p)
    hs = c.generate("EventsMC", CFG % ("1, 2", "1", 4, 3, "none", "TRUE", "Emit"), "one thread, nested", limit=c.pick(800, 6000))
    hs += c.generate("EventsMC", CFG % ("1, 2, 3", "1, 2", 8, 3, "none", "TRUE", "Emit"), "two threads, nested",
                     simulate=(c.pick(1500, 6000), 60), limit=c.pick(800, 5000))
    events.judge(c, [events.of_model(c, h) for h in hs], "behaviours of the model")
    events.judge(c, events.random_scripts(c, c.pick(900, 6000)), "all kinds of components")
    events.judge(c, events.random_scripts(c, c.pick(150, 900), lanes=(2, 3, 4)), "all kinds of components (race detector)", race=True)
