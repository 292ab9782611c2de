"""C18: reference transports hand over objects one to one (RefMC.tla, RefTrace.tla, Stack.tla)."""
from lib import pair, refs, stack

CFG = """SPECIFICATION Spec
CONSTANTS MaxSend = %d MaxOps = %d Cap = %d Mistake = "%s" Record = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "Connected OneToOne Fresh Bounded Ends"


def run(c):
    c.assumptions = ["both sides of an address are configured with the same queue size, at least 1",
                     "no connection is asked for before the transport has been run for the first time"]
    c.model("RefMC", CFG % (4, c.pick(8, 10), 1, "none", "FALSE", INV), "queue of one")
    c.model("RefMC", CFG % (4, c.pick(7, 9), 2, "none", "FALSE", INV), "queue of two")
    for m, p in dict(leak="Fresh", early="Connected", twice="Connected", hang="Ends").items():
        c.model("RefMC", CFG % (2, 7, 2, m, "FALSE", p), "mistake: " + m, expect_violation=p)
    for cap, n, sim in ((1, 5, None), (2, 12, (c.pick(1500, 20000), 40))):
        hs = c.generate("RefMC", CFG % (9, n, cap, "none", "TRUE", "Emit"), "queue of %d" % cap, limit=c.pick(700, 8000), simulate=sim)
        refs.judge(c, [refs.of_model(c, h, cap) for h in hs], "behaviours of the model, queue of %d" % cap)
    refs.judge(c, refs.random_scripts(c, c.pick(700, 8000)), "random histories")
    refs.judge(c, refs.storms(c, c.pick(240, 3000)), "ended by several at once")
    refs.judge(c, refs.random_scripts(c, c.pick(150, 1500), busy=True), "random histories (race detector)", race=True)
    refs.judge(c, refs.storms(c, c.pick(80, 800)), "ended by several at once (race detector)", race=True)
    stack.judge(c, stack.references(c, c.pick(400, 4000)), "objects through every processor")
    pair.judge(c, pair.references(c, c.pick(300, 3000)), "two stacks over reference transports")
    pair.judge(c, pair.references(c, c.pick(60, 400)), "two stacks over reference transports (race detector)", race=True)
