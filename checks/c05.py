"""C05: reassembly is private to each connection (Stack.tla, StackMC.tla)."""
from lib import stack, par


def run(c):
    stack.models(c, ("frame", 2, 12, 2, True), *c.pick((), (("frame", 3, 12, 3, True), ("session", 2, 24, 2, True))))
    s = stack.behaviours(c, c.pick(2500, 20000), "frame", 3, 12, 2, True, simulate=(c.pick(400, 4000), 60))
    stack.judge(c, s, "connections of the model, cut, interleaved and closed")
    stack.judge(c, stack.interleaved(c, c.pick(700, 9000)), "random interleavings")
    par.judge(c, par.parallel(c, c.pick(600, 8000)), "connections fed at the same time")
    par.judge(c, par.torn(c, c.pick(400, 5000)), "connections that break in the middle of a frame")
    par.judge(c, par.parallel(c, c.pick(80, 800)), "connections fed at the same time, under the race detector", race=True)
