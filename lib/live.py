"""Scripts for the live driver (one stack, virtual time, several lanes)."""
from .gen import Gen, s4, over


def judge(c, module, scripts, what, race=False, shard=None, **kw):
    recs = c.execute("live", scripts, race=race, shard=shard or max(1, min(40, -(-len(scripts) // 8))), **kw)
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate(module, [t for t, _ in ok], what, origin=[("live", s) for _, s in ok])


def base(g, procs, conns, eps, mtu=256):
    return g.cfg(procs, conns, eps, mtu=mtu, name=b"x")


HB_PIPES = [["bytes", "hb"], ["bytes", "session", "hb"], ["bytes", "hb", "frame"], ["bytes", "session", "hb", "frame"],
            ["bytes", "stat", "hb", "frame"], ["bytes", "hb", "stat", "flow"], ["generic", "session", "hb", "stat", "frame"]]


def beat(g, procs):
    return g.control(procs, procs.index("hb") + 1, [131])


def heartbeat_of_model(c, hist, timeout, phase, closing):
    """a behaviour of HbMC (ticks of 250 ms) as a script"""
    g, r = Gen(c.rng), c.rng
    procs = r.choice(HB_PIPES)
    cf = base(g, procs, 1, 1)
    t0 = 250 * phase if phase else 1000
    ops = [dict(t=0, g=0, o="add", e=1, s=s4(0)), dict(t=0, g=0, o="addtp", n=0), dict(t=0, g=0, o="run"),
           dict(t=t0, g=0, o="open", c=1, n=0)]
    end = t0
    for what, tick in hist:
        t = t0 + 250 * tick
        end = t
        if what == "beat":
            ops.append(dict(t=t, g=0, o="rx", c=1, b=beat(g, procs)))
        elif what == "data":
            ops.append(dict(t=t, g=0, o="rx", c=1, b=g.encode(procs, [131, 7], 0)))
        else:
            ops.append(dict(t=t, g=0, o="eof", c=1))
    ops.append(dict(t=end + 1000 * (timeout // 4) + 2500, g=0, o="quiet"))
    return dict(cfg=cf, ops=ops, hb=dict(interval=1 + r.randrange(3), timeout=timeout // 4, close=1 if closing else 0))


def heartbeats(c, n):
    """several connections, heartbeats with gaps around the timeout"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        procs = r.choice(HB_PIPES)
        conns = r.choice([1, 2, 3, 5]) if r.random() < .95 else r.choice([18, 34, 70])
        cf = base(g, procs, conns, 2)
        timeout = r.choice([1, 2, 3, 5, 30])
        interval = r.choice([1, 1, 2, 3, 10])
        span = r.choice([20, 60]) * 1000 if conns < 9 else 8000
        ops = [dict(t=0, g=0, o="add", e=1, s=s4(0)), dict(t=0, g=0, o="addtp", n=0), dict(t=0, g=0, o="run")]
        for k in range(1, conns + 1):
            t = r.randrange(0, 9000)
            ref = r.random() < .1
            ops.append(dict(t=t, g=k, o="open", c=k, n=0, ref=ref))
            dead = False
            while t < span:
                # mostly shortly before or after the moment that matters
                x = r.random()
                if x < .5:
                    t += r.choice([interval * 1000, r.randrange(1, 3000)])
                else:
                    t += max(1, timeout * 1000 + r.choice([-1, 0, 1, -300, 300, 700, 999, 1000, 1001, 1500, 5000]))
                y = r.random()
                if ref:
                    if y < .5:
                        ops.append(dict(t=t, g=k, o="rxref", c=k, m=dict(k="bytes", b=[1, 2])))
                    continue
                if y < .7:
                    ops.append(dict(t=t, g=k, o="rx", c=k, b=beat(g, procs)))
                elif y < .85:
                    ops.append(dict(t=t, g=k, o="rx", c=k, b=g.encode(procs, g.data(r.randrange(1, 9)), 0)))
                elif y < .92:
                    ops.append(dict(t=t, g=k, o="send", e=1, c=k, m=dict(k="bytes", b=g.data(5))))
                elif y < .95:
                    ops.append(dict(t=t, g=k, o=r.choice(["eof", "err", "appclose", "werr"]), c=k))
        ops.append(dict(t=span + 1000 * timeout + 20500, g=0, o="quiet"))
        out.append(dict(cfg=cf, ops=ops, hb=dict(interval=interval, timeout=timeout, close=r.randrange(2))))
    return out


def statistics(c, n, heavy=False):
    """many endpoints and connections at once, queries in between and at the end"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        lower = [k for k in ("hb", "session", "flow") if r.random() < .4]
        upper = ["flow"] if r.random() < .2 else []
        if "session" in lower and r.random() < .5:
            lower.remove("session")
            upper.append("session")
        r.shuffle(lower)
        codec = r.choice(["bytes", "generic", "raw"])
        frame = r.random() < .7
        procs = [codec] + upper + ["stat"] + lower + (["frame"] if frame else [])
        conns, neps = r.choice([1, 2, 4, 6]) if r.random() < .97 else r.choice([18, 34]), r.choice([1, 2, 4, 8])
        cf = base(g, procs, conns, neps, mtu=200)
        at = procs.index("stat") + 1
        sess = list(range(neps)) if r.random() < .5 else g.sessions(min(neps, 4)) + list(range(50, 50 + neps))
        sess = sess[:neps]
        if "session" not in procs and 0 not in sess:
            sess[0] = 0
        ops = [dict(t=0, g=0, o="add", e=k + 1, s=s4(s)) for k, s in enumerate(sess)]
        ops += [dict(t=0, g=0, o="addtp", n=0), dict(t=0, g=0, o="run")]
        refs = [k for k in range(2, conns + 1) if r.random() < .1]
        ops += [dict(t=r.choice([0, 10, 300]), g=0, o="open", c=k, n=0, ref=k in refs) for k in range(1, conns + 1)]
        ops.sort(key=lambda o: o["t"])
        rounds = r.choice([1, 2, 3])
        live = [k for k in range(1, conns + 1) if k not in refs]
        collect = r.choice([0, 0, 1, 2, 3])
        t = 1000
        per = r.choice([3, 8, 20]) if not heavy else r.choice([20, 60])
        query = lambda: g.control(procs, at, [0x10] + ([] if r.random() < .9 else [1, 2]))
        for _ in range(rounds):
            spread = r.choice([0, 0, 0, 50, 3000])
            for k, e in enumerate(sess):
                for j in range(r.randrange(per + 1)):
                    ops.append(dict(t=t + (r.randrange(spread) if spread else 0), g=10 + k, o="send", e=k + 1, c=r.choice(live),
                                    m=dict(k="bytes", b=g.data(r.randrange(1, 12)) if codec != "generic" else [7] * r.randrange(1, 9))))
            for cn in live:
                stream, cutting = [], frame and r.random() < .5
                for j in range(r.randrange(per + 1)):
                    x = r.random()
                    if x < .25:
                        b = query()
                    elif x < .35:
                        b = g.control(procs, at, [0x23] + r.choice([g.data(17), [], g.data(150)]))
                    elif x < .4 and "hb" in procs:
                        b = beat(g, procs)
                    else:
                        b = g.encode(procs, g.data(r.randrange(1, 12)), r.choice(sess + [999]))
                    if cutting:
                        stream += b
                    else:
                        ops.append(dict(t=t + (r.randrange(spread) if spread else 0), g=100 + cn, o="rx", c=cn, b=b))
                for b in g.cuts(stream):
                    ops.append(dict(t=t, g=100 + cn, o="rx", c=cn, b=b[:190]))
                    if len(b) > 190:
                        for q in range(190, len(b), 190):
                            ops.append(dict(t=t, g=100 + cn, o="rx", c=cn, b=b[q:q + 190]))
            t += spread + r.choice([1, 500, 1700])
            ops.append(dict(t=t, g=0, o="quiet"))
            t += 1
            for cn in r.sample(live, r.randrange(1, len(live) + 1)):
                ops.append(dict(t=t, g=100 + cn, o="rx", c=cn, b=query()))
            t += 1
            ops.append(dict(t=t, g=0, o="quiet"))
            t += 1
            if len(live) > 1 and r.random() < .4:
                k = r.choice(live)
                live.remove(k)
                ops.append(dict(t=t, g=0, o="eof", c=k))
                t += 1
        # lanes keep their order of times
        ops = [o for _, o in sorted(enumerate(ops), key=lambda p: (p[1]["t"], p[0]))]
        out.append(dict(cfg=cf, ops=ops, hb=dict(interval=r.choice([1, 2, 5]), timeout=1000, close=0), collect=collect))
    return out


EP_PIPES = [["bytes", "session", "frame"], ["bytes", "session"], ["bytes", "stat", "session", "frame"], ["generic", "session", "stat", "flow", "frame"],
            ["bytes", "session", "hb", "frame"], ["raw", "session", "lb", "frame"], ["bytes", "frame"], ["bytes"]]
NOHB = dict(interval=100000, timeout=100000, close=0)


class Payload:
    """messages that are all different"""
    def __init__(self):
        self.n = 0

    def __call__(self, extra=0):
        self.n += 1
        return list(self.n.to_bytes(3, "big")) + [1] * extra


def endpoints_of_model(c, hist, calm):
    """a behaviour of EpMC: one session, its endpoints come and go"""
    g, r = Gen(c.rng), c.rng
    procs = r.choice([p for p in EP_PIPES if "hb" not in p])
    cf = base(g, procs, 1, 2)
    pay = Payload()
    s = r.choice([0, 1, 5, 2 ** 31 - 1])
    early = r.random() < .2
    ops = [dict(t=0, g=0, o="addtp", n=0)]
    if not early:
        ops.append(dict(t=0, g=0, o="run"))
    ops.append(dict(t=1, g=0, o="open", c=1, n=0))
    t, gated = 2, False
    if early:
        ops.pop()
    seen = set()
    for n, (what, e) in enumerate(hist):
        if what == "put":
            if e not in seen: # the driver makes endpoints when they are added
                ops.append(dict(t=t, g=0, o="make", e=e, s=s4(s)))
                seen.add(e)
            ops.append(dict(t=t, g=0, o="send", e=e, c=1, early=True, m=dict(k="bytes", b=pay())))
        else:
            seen.add(e)
            ops.append(dict(t=t, g=0, o=what, e=e, s=s4(s)))
        if early and n == len(hist) // 2:
            ops += [dict(t=t, g=0, o="run")]
            early = False
            ops.append(dict(t=t, g=0, o="open", c=1, n=0))
        if r.random() < .3 and not early:
            ops.append(dict(t=t, g=1, o="rx", c=1, b=g.encode(procs, pay(), s)))
        if r.random() < (.5 if calm else .1):
            ops.append(dict(t=t, g=0, o="quiet"))
        if r.random() < .3 and not early:
            ops.append(dict(t=t, g=0, o="ungate" if gated else "gate", c=1))
            gated = not gated
        if r.random() < (.5 if calm else .2):
            t += 1
    if early:
        ops += [dict(t=t, g=0, o="run")]
    ops.append(dict(t=t + 1, g=0, o="quiet"))
    if gated:
        ops.append(dict(t=t + 2, g=0, o="ungate", c=1))
        ops.append(dict(t=t + 2, g=0, o="quiet"))
    return dict(cfg=cf, ops=ops, hb=NOHB)


def endpoints(c, n, heavy=False):
    """several sessions, each with endpoints that take turns, while messages flow"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        procs = r.choice([p for p in EP_PIPES if "hb" not in p])
        conns, nses = r.choice([1, 2, 3]), r.choice([1, 2, 4])
        per = r.choice([1, 1, 2, 3])
        cf = base(g, procs, conns, nses * per)
        pay = Payload()
        sess = g.sessions(nses)
        ops = [dict(t=0, g=0, o="addtp", n=0)]
        stay = r.randrange(nses) if r.random() < .7 else -1 # this one never leaves
        before = r.random() < .4
        waits = []
        if before:
            for k in range(nses):
                ops.append(dict(t=0, g=0, o="add", e=k * per + 1, s=s4(sess[k])))
                if r.random() < .5:
                    ops.append(dict(t=0, g=0, o="send", e=k * per + 1, c=1, m=dict(k="bytes", b=pay())))
                    ops[-1]["early"] = True
                if per > 1 and r.random() < .5:
                    ops.append(dict(t=0, g=0, o="add", e=k * per + 2, s=s4(sess[k])))
                    waits.append((k * per + 2, sess[k]))
        ops.append(dict(t=0, g=0, o="run"))
        ops += [dict(t=1, g=0, o="open", c=k, n=0) for k in range(1, conns + 1)]
        for k in range(nses):
            for j in range(per):
                ops.append(dict(t=1, g=0, o="make", e=k * per + j + 1, s=s4(sess[k])))
        ops += [dict(t=1, g=0, o="del", e=e, s=s4(s)) for e, s in waits]
        t = 2
        turn = [1 if before else 0] * nses # which endpoint of the session is in, 0 none
        for rnd in range(r.choice([1, 2, 4])):
            spread = r.choice([0, 0, 3, 40])
            at = lambda: t + (r.randrange(spread + 1))
            new = []
            for k in range(nses):
                tt = sorted(at() for _ in range(r.randrange(1, 8)))
                twin = 0
                for x in tt:
                    if twin and r.random() < .6:
                        new.append(dict(t=x, g=10 + k, o="del", e=k * per + twin, s=s4(sess[k])))
                        twin = 0
                    elif turn[k] and not twin and per > 1 and r.random() < .3:
                        # another one with the same session: it has to wait
                        twin = r.choice([j for j in range(1, per + 1) if j != turn[k]])
                        new.append(dict(t=x, g=10 + k, o="add", e=k * per + twin, s=s4(sess[k])))
                    elif turn[k]:
                        if k == stay or twin:
                            continue
                        new.append(dict(t=x, g=10 + k, o="del", e=k * per + turn[k], s=s4(sess[k])))
                        turn[k] = 0
                    else:
                        turn[k] = r.randrange(per) + 1
                        new.append(dict(t=x, g=10 + k, o="add", e=k * per + turn[k], s=s4(sess[k])))
                if twin:
                    new.append(dict(t=tt[-1], g=10 + k, o="del", e=k * per + twin, s=s4(sess[k])))
                for j in range(per):
                    for x in sorted(at() for _ in range(r.randrange(0, 12 if not heavy else 40))):
                        new.append(dict(t=x, g=30 + k * per + j, o="send", e=k * per + j + 1, c=r.randrange(conns) + 1,
                                        m=dict(k="bytes", b=pay(r.randrange(3))),
                                        d=s4(r.choice(sess + [4242])) if r.random() < .1 else []))
            for cn in range(1, conns + 1):
                for x in sorted(at() for _ in range(r.randrange(0, 12 if not heavy else 40))):
                    new.append(dict(t=x, g=100 + cn, o="rx", c=cn, b=g.encode(procs, pay(r.randrange(3)), r.choice(sess + [4242]))))
                if r.random() < .4:
                    x, y = sorted([at(), at()])
                    new += [dict(t=x, g=200 + cn, o="gate", c=cn), dict(t=y, g=200 + cn, o="ungate", c=cn)]
            ops += new
            t += spread + 2
            ops.append(dict(t=t, g=0, o="quiet"))
            t += 2
        for k in range(nses):
            for j in range(per): # everybody gets a turn to send what is left
                if turn[k] != j + 1:
                    if turn[k]:
                        ops.append(dict(t=t, g=0, o="del", e=k * per + turn[k], s=s4(sess[k])))
                    ops.append(dict(t=t, g=0, o="add", e=k * per + j + 1, s=s4(sess[k])))
                    turn[k] = j + 1
                ops.append(dict(t=t, g=0, o="quiet"))
        ops = [o for _, o in sorted(enumerate(ops), key=lambda p: (p[1]["t"], p[0]))]
        out.append(dict(cfg=cf, ops=ops, hb=NOHB))
    return out


CONN_PIPES = [["bytes", "frame"], ["bytes", "session", "frame"], ["bytes", "stat", "hb", "frame"], ["generic", "session", "hb", "stat", "flow", "frame"],
              ["bytes"], ["bytes", "hb"], ["raw", "lb", "frame"]]


def connection_of_model(c, hist, writers=2):
    """a behaviour of ConnMC; [what, state of the accept loop]"""
    g, r = Gen(c.rng), c.rng
    procs = r.choice(CONN_PIPES)
    cf = base(g, procs, 1, writers)
    pay = Payload()
    ref = r.random() < .1
    ops = [dict(t=0, g=0, o="add", e=e + 1, s=s4(e)) for e in range(writers)]
    ops += [dict(t=0, g=0, o="addtp", n=0), dict(t=0, g=0, o="run")]
    react = {}
    before = [x for x, a in hist if a == "have"]
    inside = [x for x, a in hist if a == "handlers"]
    t = 1
    after = []
    opened = False

    def act(x, t, lane):
        if x == "end":
            return [dict(t=t, g=lane, o=r.choice(["eof", "err", "eof"]), c=1, b=[])]
        if x == "break":
            return [dict(t=t, g=lane, o="werr", c=1)]
        if x == "close":
            return [dict(t=t, g=lane, o="appclose", c=1)]
        return [dict(t=t, g=lane, o="send", e=r.randrange(writers) + 1, c=1, m=dict(k="bytes", b=pay()))]
    ops.append(dict(t=t, g=0, o="open", c=1, n=0, ref=ref))
    if inside:
        react = {1: [dict(o=q["o"], e=q.get("e", 1), c=1, b=[], m=q.get("m", dict(k="none", b=[]))) for x in inside for q in act(x, 0, 0)]}
    for n, (x, a) in enumerate(hist):
        if a == "handlers":
            continue
        if a == "done" and r.random() < .5:
            t += 1
        ops += act(x, t, 1 + (n % 4 if r.random() < .5 else 0))
    if r.random() < .3:
        ops.append(dict(t=t, g=7, o="deltp", n=0))
    ops.append(dict(t=t + 1, g=0, o="quiet"))
    ops = [o for _, o in sorted(enumerate(ops), key=lambda p: (p[1]["t"], p[0]))]
    return dict(cfg=cf, ops=ops, hb=NOHB, react=react)


def connections(c, n, heavy=False):
    """many connections on several transports, ending in every way at once"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        procs = r.choice(CONN_PIPES)
        ntp = r.choice([1, 1, 2, 3])
        conns = r.choice([2, 4, 8, 12])
        neps = r.choice([1, 2, 4])
        cf = base(g, procs, conns, neps)
        pay = Payload()
        sess = list(range(neps))
        ops = []
        early = [k for k in range(ntp) if r.random() < .5]
        ops += [dict(t=0, g=0, o="add", e=e + 1, s=s4(s)) for e, s in enumerate(sess)]
        ops += [dict(t=0, g=0, o="addtp", n=k) for k in early]
        if early and r.random() < .2: # before the stack runs
            ops.append(dict(t=0, g=0, o="deltp", n=early[0]))
            ops.append(dict(t=0, g=0, o="addtp", n=early[0]))
        ops.append(dict(t=0, g=0, o="run"))
        late = {k: r.choice([0, 5, 20]) for k in range(ntp) if k not in early}
        ops += [dict(t=1 + late[k], g=1000 + k, o="addtp", n=k) for k in late]
        span = r.choice([30, 30, 4000])
        hb = dict(interval=1, timeout=r.choice([1, 2]), close=r.randrange(2)) if span > 100 and r.random() < .6 else NOHB
        react = {}
        tick = lambda lo=0: r.choice([10, 20, r.randrange(lo, span), r.randrange(lo, span)])
        for k in range(1, conns + 1):
            t = tick()
            ref = r.random() < .1
            ops.append(dict(t=t, g=k, o="open", c=k, n=r.randrange(ntp), ref=ref))
            if r.random() < .2:
                react[k] = r.choice(["close", "send", "close"])
            ways = r.choice([0, 1, 1, 2, 2, 3, 4])
            when = t + r.choice([0, 0, 1, r.randrange(span)])
            for w in range(ways):
                x = when + r.choice([0, 0, 0, 1, 3])
                lane = 100 + k * 5 + w
                kind = r.choice(["eof", "err", "rxeof", "appclose", "werr", "werr", "big"])
                if kind == "big":
                    if procs[-1] != "frame" or ref:
                        continue
                    ops.append(dict(t=x, g=lane, o="rx", c=k, b=[r.choice([1, 127, 128, 255]), 0, 0, 0]))
                elif kind == "rxeof":
                    ops.append(dict(t=x, g=lane, o="rxeof" if not ref else "eof", c=k,
                                    b=[] if ref else g.encode(procs, pay(), r.choice(sess))))
                else:
                    ops.append(dict(t=x, g=lane, o=kind, c=k, b=[]))
                if kind == "werr":
                    for j in range(r.randrange(1, 4)):
                        ops.append(dict(t=x + r.choice([0, 1]), g=500 + k * 5 + j, o="send", e=r.randrange(neps) + 1, c=k, m=dict(k="bytes", b=pay())))
            for j in range(r.randrange(0, 4)):
                x = t + r.choice([0, 1, r.randrange(span)])
                if ref:
                    ops.append(dict(t=x, g=k, o="rxref", c=k, m=dict(k="bytes", b=pay())))
                else:
                    ops.append(dict(t=x, g=k, o="rx", c=k, b=g.encode(procs, pay(), r.choice(sess))))
            if r.random() < .5:
                ops.append(dict(t=t + r.choice([0, r.randrange(span)]), g=900 + k, o="send", e=r.randrange(neps) + 1, c=k, m=dict(k="bytes", b=pay())))
        for k in range(ntp):
            x = tick() + late.get(k, 0) + 1
            for j in range(r.choice([0, 0, 1, 1, 2, 4])):
                ops.append(dict(t=x, g=1000 + k, o="deltp" if j % 2 == 0 else "addtp", n=k))
                x += r.choice([0, 0, 1, 7])
        for x in (span // 2, 2 * span + 10, 2 * span + 4000):
            ops.append(dict(t=x, g=2000, o="quiet"))
        ops = [o for _, o in sorted(enumerate(ops), key=lambda p: (p[1]["t"], p[0]))]
        out.append(dict(cfg=cf, ops=ops, hb=hb, react=react, tps=ntp))
    return out
