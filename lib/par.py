"""Scripts for the par driver: connections that are active at the same time."""
from .gen import Gen, s4, over


def parallel(c, n, extra=(), wild=0.0):
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        ex = [r.choice(extra)] if extra else []
        codec, procs = g.pipeline(codecs=["raw", "bytes", "generic", "string"], extra=ex)
        if wild:  # a statistics query concerns all connections
            procs = [("flow" if k == "stat" else k) for k in procs]
        nconn = r.choice([2, 2, 3, 5, 8])
        cf = g.cfg(procs, nconn, 2, cap=r.choice([None, None, None, 64]))
        sess = g.sessions(2)
        if "session" not in procs:
            sess[0] = 0
            sess[1] = sess[1] or 9
        lim = min(cf["cap"], cf["mtu"]) - over(procs) - 2
        conns = []
        for k in range(1, nconn + 1):
            st = []
            for _ in range(r.randrange(1, 9)):
                e = g.encode(procs, [k] + [100 + k] * min(g.size(min(lim, 60)), lim - 1),
                             r.choice(sess))
                if r.random() < wild:
                    x = r.randrange(4)
                    if x == 0 and e:
                        e[r.randrange(len(e))] ^= 1 << r.randrange(8)
                    elif x == 1:
                        e = s4(cf["cap"] + r.randrange(3)) + [1, 2, 3]
                    elif x == 2:
                        e = g.encode(["frame"], g.data(r.randrange(8)), 0)
                    else:
                        e = g.data(r.randrange(1, 12))
                st += e
            chunks = g.cuts(st)
            conns.append(dict(chunks=chunks, gaps=[r.choice([0, 0, 0, 10, 50, 200]) for _ in chunks],
                              end=r.choice(["none", "none", "none", "eof", "close"])))
        out.append(dict(cfg=cf, seed=r.randrange(1 << 30), sess=[s4(s) for s in sess], conns=conns,
                        pause=r.choice([0, 0, 30, 100, 300])))
    return out


def torn(c, n):
    """writes fail while the reader is busy in the middle of a frame, whose
    rest looks like frames of its own"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        codec, procs = g.pipeline(codecs=["raw", "bytes", "string"])
        if "frame" not in procs:
            procs = procs + ["frame"]
        nconn = r.choice([1, 2, 4])
        cf = g.cfg(procs, nconn, 2, cap=None)
        cf["mtu"], cf["cap"] = 256, 512
        sess = g.sessions(2)
        if "session" not in procs:
            sess[0] = 0
            sess[1] = sess[1] or 9
        conns = []
        for k in range(1, nconn + 1):
            small = [g.encode(procs, [k] + [100 + k] * r.randrange(3), r.choice(sess)) for _ in range(r.randrange(1, 4))]
            whole = g.encode(procs, sum(small, []), r.choice(sess))
            head = len(whole) - sum(len(x) for x in small)
            chunks = [g.encode(procs, [k, k], r.choice(sess))] if r.random() < .5 else []
            chunks += [whole[:head]] if r.random() < .7 else [whole[:2], whole[2:head]]
            at = len(chunks) + r.choice([0, 1, 1, 1])
            chunks += r.choice([small, [sum(small, [])]])
            conns.append(dict(chunks=chunks, gaps=[r.choice([0, 0, 0, 10, 50]) for _ in chunks],
                              end="close", broken=min(at, len(chunks)),
                              put=dict(k="string" if codec == "string" else "bytes", b=[1])))
        out.append(dict(cfg=cf, seed=r.randrange(1 << 30), sess=[s4(s) for s in sess], conns=conns,
                        pause=r.choice([30, 100, 300])))
    return out


def judge(c, scripts, what, race=False):
    recs = c.execute("par", scripts, race=race)
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("ParTrace", [t for t, _ in ok], what, origin=[("par", s) for _, s in ok])
