"""C17: processors do their job when enabled and step aside when disabled (Stack.tla, PipeMC.tla)."""
from lib import stack, par


def run(c):
    c.assumptions = ["a framing processor is not switched while a frame is incomplete",
                     "echo and loopback are not stacked on each other (a message would go round for ever)"]
    k = ["echo", "discard", "loop", "flow", "session", "stat", "filter", "fwd"]
    c.model("PipeMC", stack.pipes(k, 0, 2, "bytes", True, 2, False), "two processors below the codec")
    c.model("PipeMC", stack.pipes(k[:4], 2, 1, "bytes", False, c.pick(2, 3), False), "processors above and below the codec")
    s = c.generate("PipeMC", stack.pipes(k[:6], 1, 1, "bytes", True, 2, True), "scripts for all pipelines", limit=c.pick(5000, 60000))
    s += c.generate("PipeMC", stack.pipes(k, 1, 2, "generic", True, 5, True), "longer scripts",
                    limit=c.pick(1500, 20000), simulate=c.pick((100, 10), (2000, 10)))
    stack.judge(c, s, "processors of the model")
    stack.judge(c, stack.switching(c, c.pick(2200, 25000)), "processors switched between messages")
    par.judge(c, par.parallel(c, c.pick(200, 3000), extra=("echo", "echo", "discard", "flow")), "answers to several connections at the same time")
