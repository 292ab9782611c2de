"""C08: messages go out whole or not at all (Stack.tla, StackMC.tla)."""
from lib import stack


def run(c):
    stack.models(c, ("session", 2, 24, 1), ("plain", 3, 16, 2), *c.pick((), (("all", 2, 48, 1), ("rev", 2, 48, 1))))
    stack.judge(c, stack.outgoing(c, c.pick(1600, 20000)), "messages of all sizes and kinds")
