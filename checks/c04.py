"""C04: framing survives every segmentation (Stack.tla, StackMC.tla)."""
from lib import stack


def run(c):
    c.assumptions = ["a read never returns more bytes than the MTU (the size of the buffer it is given)"]
    stack.models(c, ("frame", 2, 12, 1), ("frame", 3, 12, 2), *c.pick((), (("session", 3, 24, 1), ("all", 2, 48, 1), ("frame", 4, 12, 1))))
    s = stack.behaviours(c, c.pick(3000, 50000), "frame", 2, 12, 1)
    s += stack.behaviours(c, c.pick(1000, 10000), "session", 2, 24, 1, simulate=(c.pick(300, 3000), 60))
    stack.judge(c, s, "every cut of the streams of the model")
    stack.judge(c, stack.framing(c, c.pick(900, 12000)), "random frames and cuts")
    stack.judge(c, stack.framing(c, c.pick(24, 160), big=True), "large frames", shard=4)
