"""C15: statistics (StatMC.tla, Stack.tla, StackMC.tla, StatTrace.tla)."""
from lib import live, stack

CFG = """SPECIFICATION Spec
CONSTANTS Writers = {%s} Readers = {%s} Each = %d Queries = %d Mistake = "%s"
INVARIANTS Between ExactWhenIdle OnePerQuery
CHECK_DEADLOCK FALSE
"""


def run(c):
    c.assumptions = ["the statistics processor is not switched while messages pass", "fewer than 2^24 messages per counter"]
    c.model("StatMC", CFG % ("w1, w2".replace("w1", '"w1"').replace("w2", '"w2"'), '"r1"', c.pick(2, 3), 2, "none"), "two writers, a reader")
    c.model("StatMC", CFG % ('"w1"', '"r1", "r2"', c.pick(1, 2), c.pick(1, 2), "none"), "a writer, two readers")
    for m, p in (("nolock", "ExactWhenIdle"), ("self", "Between")):
        c.model("StatMC", CFG % ('"w1", "w2"', '"r1"', 1, 1, m), "mistake: " + m, expect_violation=p)
    stack.models(c, ("tags", 2, 40, 1), *c.pick((), (("all", 3, 48, 1),)))
    stack.judge(c, stack.statistics(c, c.pick(300, 4000)), "one thing at a time")
    live.judge(c, "StatTrace", live.statistics(c, c.pick(160, 2500)), "many at once")
    live.judge(c, "StatTrace", live.statistics(c, c.pick(24, 300), heavy=True), "many at once (race detector)", race=True)
