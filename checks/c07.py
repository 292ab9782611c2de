"""C07: messages arrive exactly once, unmodified and in order (Stack.tla, StackMC.tla, PairTrace.tla)."""
from lib import stack, pair


def run(c):
    c.assumptions = ["a Write of a custom connection is atomic, as it is for TCP and Unix sockets",
                     "MTU at least the overhead of the pipeline plus one byte"]
    stack.models(c, ("tags", 2, 40, 1), ("rev", 2, 48, 1), *c.pick((), (("all", 2, 48, 2), ("all", 3, 48, 1))))
    stack.judge(c, stack.behaviours(c, c.pick(800, 10000), "all", 3, 48, 2, simulate=(c.pick(60, 1500), 60)), "exchanges of the model")
    pair.judge(c, pair.scripts(c, c.pick(160, 2500)), "two stacks, connections in memory")
    pair.judge(c, pair.scripts(c, c.pick(16, 200), heavy=True), "two stacks, many endpoints at once", race=True)
    pair.judge(c, pair.scripts(c, c.pick(48, 500), mode=["tcp", "uds"]), "two stacks over sockets", real=True)
    pair.judge(c, pair.scripts(c, c.pick(8, 60), mode=["tcp", "uds"], heavy=True), "many endpoints over sockets", real=True, race=True)
    pair.judge(c, pair.late(c, c.pick(10, 100)), "applications that read late")
    pair.judge(c, pair.late(c, c.pick(4, 40), mode=["tcp", "uds"]), "applications that read late, over sockets", real=True)
    pair.judge(c, pair.big(c, c.pick(40, 400)), "large messages")
    pair.judge(c, pair.big(c, c.pick(16, 200), mode=["tcp", "uds"]), "large messages over sockets", real=True)
    pair.judge(c, pair.jam(c, c.pick(2, 12)), "more under way than sockets hold", real=True)
