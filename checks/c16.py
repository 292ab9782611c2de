"""C16: filter and forwarder obey their predicates (Stack.tla, PipeMC.tla)."""
from lib import stack


def run(c):
    k = ["filter", "fwd", "flow"]
    c.model("PipeMC", stack.pipes(k, 1, 2, "bytes", False, c.pick(2, 3), False), "filters and forwarders, all pipelines")
    s = c.generate("PipeMC", stack.pipes(k[:2], 1, 1, "bytes", False, 2, True), "scripts for all pipelines", limit=c.pick(4000, 60000))
    s += c.generate("PipeMC", stack.pipes(k[:2], 0, 1, "generic", True, 3, True), "longer scripts",
                    limit=c.pick(1500, 20000), simulate=c.pick((300, 8), (3000, 8)))
    stack.judge(c, s, "filters and forwarders of the model")
    stack.judge(c, stack.predicates(c, c.pick(2000, 25000)), "filters and forwarders at every position")
