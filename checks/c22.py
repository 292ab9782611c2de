"""C22: stacks in one process do not influence each other (Stack.tla, IsoMC.tla and the trace specifications of the parts)."""
from lib import multi

CFG = """SPECIFICATION Spec
CONSTANTS MaxOps = %d Mistake = "%s" Record = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def run(c):
    c.assumptions = ["the stacks share no component and no reference address; the application does not couple them either"]
    c.model("IsoMC", CFG % (c.pick(4, 5), "none", "FALSE", "NoInfluence"), "two stacks side by side")
    for m in ("counters", "caches", "sessions", "switch"):
        c.model("IsoMC", CFG % (3, m, "FALSE", "NoInfluence"), "mistake: shared " + m, expect_violation="NoInfluence")
    hs = c.generate("IsoMC", CFG % (c.pick(4, 5), "none", "TRUE", "Emit"), "interleaved stimuli", limit=c.pick(400, 6000))
    multi.judge(c, [multi.of_model(c, h) for h in hs], "behaviours of the model")
    multi.judge(c, multi.groups(c, c.pick(320, 2400)), "everything side by side")
    multi.judge(c, multi.groups(c, c.pick(48, 500)), "everything side by side (race detector)", race=True)
    multi.judge(c, multi.sockets(c, c.pick(160, 1600)), "side by side over sockets", driver="multireal")
