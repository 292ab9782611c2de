"""Several scripts at the same time in one process (driver multi); every part is judged by the specification of its driver."""
from . import events, life, listen, live, pair, par, refs, stack
from .gen import s4

CFG = dict(mtu=64, cap=128, capop=False, name=[120], conns=1, eps=2, enc=[],
           procs=[dict(k=k, n=0) for k in ("raw", "stat", "session", "frame")])


def of_model(c, h):
    """a behaviour of IsoMC: two scripts of the stack driver"""
    out = []
    for u in (0, 1):
        ops = [dict(o="open", c=1, ref=False)]
        for x in h["hist"][u]:
            if x["o"] in ("addep", "delep"):
                ops.append(dict(o=x["o"], e=x["e"], s=s4(x["e"])))
            elif x["o"] == "off":
                ops.append(dict(o="enable", p=2, on=False))
            elif x["o"] == "send":
                ops.append(dict(o="send", e=x["e"], c=1, m=dict(k="bytes", b=x["b"]), d=[]))
            else:
                ops.append(dict(o="read", c=1, b=x["b"]))
        # ask, and hear of everybody
        ops += [dict(o="read", c=1, b=[0, 0, 0, 5, 0, 0, 0, 1, 0x10])]
        out.append(("stack", "StackTrace", dict(cfg=dict(CFG), ops=ops)))
    return out


def groups(c, n, race=False):
    """parts drawn from the generators of the other checks"""
    r = c.rng
    kinds = dict(
        outgoing=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.outgoing(c, k))],
        framing=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.framing(c, k))],
        garbage=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.garbage(c, k))],
        interleaved=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.interleaved(c, k))],
        routing=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.routing(c, k))],
        statistics=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.statistics(c, k))],
        switching=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.switching(c, k))],
        predicates=lambda k: [("stack", "StackTrace", s) for s in stack.sprinkle(c, stack.predicates(c, k))],
        heartbeats=lambda k: [("live", "HbTrace", s) for s in live.heartbeats(c, k)],
        counts=lambda k: [("live", "StatTrace", s) for s in live.statistics(c, k)],
        endpoints=lambda k: [("live", "EpTrace", s) for s in live.endpoints(c, k)],
        connections=lambda k: [("live", "ConnTrace", s) for s in live.connections(c, k)],
        parallel=lambda k: [("par", "ParTrace", s) for s in par.parallel(c, k)],
        events=lambda k: [("events", "EventsTrace", s) for s in events.random_scripts(c, k)],
        listen=lambda k: [("listen", "ListenTrace", s) for s in listen.random_scripts(c, k)],
        refs=lambda k: [("refs", "RefTrace", s) for s in refs.random_scripts(c, k)])
    live_kinds = ["heartbeats", "counts", "endpoints", "connections", "parallel"]
    out = []
    for j in range(n):
        x = r.random()
        if x < .5:  # the same kind of work in all of them
            ks = [sorted(kinds)[j % len(kinds)]] * r.choice([2, 2, 3])
        elif x < .8:
            ks = r.sample(sorted(kinds), r.choice([2, 3]))
        else:
            ks = [r.choice(live_kinds) for _ in range(r.choice([2, 3]))]
        out.append([kinds[k](1)[0] for k in ks])
    return out


def sockets(c, n):
    """stacks and transports over real sockets; their transports bear the same names"""
    r = c.rng
    kinds = dict(life=lambda: [("life", "LifeTrace", s) for s in life.random_scripts(c, 1)],
                 full=lambda: [("life", "LifeTrace", s) for s in life.full(c, 1)],
                 pair=lambda: [("pairreal", "PairTrace", s) for s in pair.scripts(c, 1, mode=["tcp", "uds"])])
    return [[kinds[r.choice(["life", "life", "life", "full", "pair", "pair"])]()[0] for _ in range(r.choice([2, 3, 4]))] for _ in range(n)]


def judge(c, groups, what, race=False, driver="multi"):
    scripts = [dict(parts=[dict(driver=d, script=s) for d, _, s in g]) for g in groups]
    recs = c.execute(driver, scripts, race=race, shard=max(1, min(20, -(-len(scripts) // 8))))
    by = {}
    for x, g, s in zip(recs, groups, scripts):
        if x:
            for (_, module, _), t in zip(g, x["trace"]):
                by.setdefault(module, []).append((t, s))
    for module in sorted(by):
        c.validate(module, [t for t, _ in by[module]], what + ", " + module, origin=[(driver, s) for _, s in by[module]])
