"""C21: settings are obeyed and reported back (Conf.tla, ConfMC.tla, ConfTrace.tla and the trace specifications they parameterise)."""
from lib import conf, live, refs, retry, stack

CFG = """SPECIFICATION Spec
CONSTANTS Comps = {%s} MaxSets = %d Mistake = "%s" Record = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def run(c):
    c.assumptions = ["a component is given its settings before it is started (a transport: before it is started again)",
                     "both sides of a reference transport are given the same queue size"]
    c.model("ConfMC", CFG % ('"a", "b"', c.pick(3, 4), "none", "FALSE", "Kept Obeyed"), "two components")
    for m, p in (("first", "Obeyed"), ("sticky", "Obeyed"), ("shared", "Obeyed"), ("anyname", "Kept")):
        c.model("ConfMC", CFG % ('"a", "b"', 3, m, "FALSE", p), "mistake: " + m, expect_violation=p)
    hists = c.generate("ConfMC", CFG % ('"a", "b"', 2, "none", "TRUE", "Emit"), "two components, two settings")
    hists += c.generate("ConfMC", CFG % ('"a"', 4, "none", "TRUE", "Emit"), "one component, four settings")
    for h in hists:
        h["eff"].setdefault("b", 9)
    conf.judge(c, conf.asked_back(c, c.pick(800, 10000)), "put in and asked back")
    d = lambda scripts: [conf.dress(c, hists, s) for s in scripts]
    stack.judge(c, d(stack.outgoing(c, c.pick(300, 4000))), "sizes of messages by settings")
    stack.judge(c, d(stack.framing(c, c.pick(200, 3000)) + stack.garbage(c, c.pick(200, 3000))), "reassembly by settings")
    live.judge(c, "HbTrace", d(live.heartbeats(c, c.pick(120, 2000))), "heartbeats by settings")
    live.judge(c, "StatTrace", d(live.statistics(c, c.pick(60, 800))), "collecting statistics by settings")
    retry.judge(c, [conf.of_retry(c, hists, s) for s in retry.random_scripts(c, c.pick(200, 2000))] + conf.restarts(c, hists, c.pick(200, 2000)),
                "attempts by settings")
    refs.judge(c, conf.queues(c, hists, c.pick(96, 1200)), "queues by settings")
