"""C10: endpoints come and go (EpMC.tla, EpTrace.tla)."""
from lib import live

CFG = """SPECIFICATION Spec
CONSTANTS Eps = %s MaxPut = %d MaxChange = %d Cap = 4 Mistake = "%s" Record = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "OnlyOneAfter NoneLost NoneTwice Ordered Drained"


def run(c):
    c.assumptions = ["one goroutine puts messages into one endpoint's channel", "Run does not overlap with adding or removing",
                     "an endpoint that was added while another one had its session is removed before that one leaves"]
    c.model("EpMC", CFG % ("{1, 2}", c.pick(3, 4), c.pick(4, 5), "none", "FALSE", INV), "two endpoints take turns")
    for m, p in dict(oneselect="OnlyOneAfter", drain="NoneLost", forget="NoneLost", twin="Drained").items():
        c.model("EpMC", CFG % ("{1, 2}" if m == "twin" else "{1}", 3, 3, m, "FALSE", (p if m == "twin" else INV)), "mistake: " + m, expect_violation=p)
    hs = c.generate("EpMC", CFG % ("{1, 2}", 4, 5, "none", "TRUE", "Emit"), "orders of putting, adding and removing",
                    simulate=(c.pick(3000, 40000), 60), limit=c.pick(400, 8000))
    live.judge(c, "EpTrace", [live.endpoints_of_model(c, h, k % 2) for k, h in enumerate(hs)], "behaviours of the model")
    live.judge(c, "EpTrace", live.endpoints(c, c.pick(200, 3000)), "several sessions")
    live.judge(c, "EpTrace", live.endpoints(c, c.pick(24, 300), heavy=True), "several sessions (race detector)", race=True)
