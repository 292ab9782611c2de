"""C09: messages are routed by session and only by session (Stack.tla, StackMC.tla)."""
from lib import stack


def run(c):
    stack.models(c, ("plain", 3, 16, 2), ("session", 2, 24, 1), *c.pick((), (("rev", 2, 48, 1),)))
    stack.judge(c, stack.routing(c, c.pick(1500, 20000)), "sessions over the whole range, endpoints coming and going")
