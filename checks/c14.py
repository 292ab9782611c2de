"""C14: heartbeat loss, in time and only when real (HbMC.tla, HbTrace.tla)."""
from lib import live

CFG = """SPECIFICATION Spec
CONSTANTS Timeout = %d Phase = %d Closing = %s Horizon = %d MaxEvents = %d Mistake = %s Record = %s
INVARIANTS InTime Once %s
PROPERTIES OnlyReal CloseIff
CHECK_DEADLOCK FALSE
"""


def run(c):
    c.assumptions = ["timers fire on time (virtual time in the harness; 50 ms of slack are allowed)",
                     "timeout and interval are at least one second"]
    B = lambda b: "TRUE" if b else "FALSE"
    for timeout, horizon, events in c.pick([(4, 16, 4)], [(4, 24, 5), (8, 28, 5), (12, 30, 4)]):
        for phase in range(4):
            c.model("HbMC", CFG % (timeout, phase, B(phase % 2), horizon, events, '"none"', "FALSE", ""),
                    "timeout %d ticks, phase %d" % (timeout, phase))
    for mistake, prop in dict(rare="InTime", data="InTime", early="OnlyReal", dead="OnlyReal", again="Once").items():
        c.model("HbMC", CFG % (8, 1, "FALSE", 24, 2, '"%s"' % mistake, "FALSE", ""), mistake,
                expect_violation=prop)
    scripts = []
    for timeout, phase, closing in [(4, 0, True), (4, 1, False), (8, 3, True), (8, 2, False)]:
        hs = c.generate("HbMC", CFG % (timeout, phase, B(closing), timeout + 12, 3, '"none"', "TRUE", "Emit"),
                        "timed behaviours, timeout %d, phase %d" % (timeout, phase), limit=c.pick(80, 3000))
        scripts += [live.heartbeat_of_model(c, h, timeout, phase, closing) for h in hs]
    live.judge(c, "HbTrace", scripts, "timed behaviours of the model")
    live.judge(c, "HbTrace", live.heartbeats(c, c.pick(200, 3000)), "several connections")
    live.judge(c, "HbTrace", live.heartbeats(c, c.pick(16, 200)), "several connections (race detector)", race=True)
