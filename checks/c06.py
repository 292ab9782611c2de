"""C06: arbitrary bytes from a peer are harmless (Stack.tla, StackMC.tla)."""
from lib import stack, par


def run(c):
    c.assumptions = ["what JSON and gob payloads decode to is taken from the standard library's decoders"]
    stack.models(c, ("frame", 0, 9, 1, False, c.pick(6, 8)), *c.pick((), (("session", 0, 9, 1, False, 7), ("frame", 0, 9, 2, False, 4))))
    s = stack.behaviours(c, c.pick(3000, 60000), "frame", 0, 9, 1, False, 6)
    stack.judge(c, s, "every stream of 6 bytes over a small alphabet, every cut" if c.thorough else "streams of 6 bytes, cut")
    stack.judge(c, stack.garbage(c, c.pick(1500, 20000)), "random bytes for every pipeline")
    par.judge(c, par.parallel(c, c.pick(400, 6000), wild=.15), "hostile peers at the same time")
