"""Scripts for the pair drivers (two stacks that talk to each other)."""
import json
from .gen import Gen, s4, over, SESS


def scripts(c, n, mode="mem", small=False, codecs=None, heavy=False):
    g, r = Gen(c.rng), c.rng
    out = []
    for k in range(n):
        md = mode if isinstance(mode, str) else r.choice(mode)
        codec, procs = g.pipeline(codecs=codecs or ["bytes", "string", "raw", "generic", "json", "gob", "ggob"],
                                  frame=md != "mem" or r.random() < .85)
        conns = r.choice([1, 1, 2, 3])
        cf = g.cfg(procs, conns, 0)
        if codec in ("gob", "ggob", "json"):
            cf["mtu"] = max(cf["mtu"], over(procs) + 240)
        if r.random() < .5 or md != "mem":
            cf["mtu"] = max(cf["mtu"], 512)
        cf["cap"] = 2 * cf["mtu"]
        nep = r.choice([1, 2, 4, 8]) if not heavy else r.choice([4, 8, 16])
        sess = g.sessions(min(nep, len(SESS)))
        sess += [1000 + i for i in range(nep - len(sess))]
        if "session" not in procs and 0 not in sess:
            sess[0] = 0
        cf["eps"] = nep
        room = cf["mtu"] - over(procs)
        sends, count = [], 0
        total = r.choice([20, 60, 200]) if not heavy else r.choice([300, 600])
        for j in range(total if not small else 12):
            e, side = r.randrange(nep) + 1, r.randrange(2)
            bad = r.random() < .08
            count += 1
            if codec in ("json", "gob", "ggob"):
                o = dict(N=count, S="".join(r.choice("abcé\"{}[]0,") for _ in range(r.randrange(20))), B=None)
                if bad:
                    o["S"] = "x" * (room + 1)
                m = dict(k=r.choice(["obj", "objp"]), b=list(json.dumps(o).encode()))
            else:
                kind = "string" if codec == "string" else "bytes"
                lim = room - (codec == "generic")
                size = max(4, g.size(lim))
                if bad:
                    size = lim + r.choice([1, 2, 50])
                b = (list(count.to_bytes(4, "big")) + g.data(size))[:size]
                if kind == "string":
                    b = [x & 0x7f for x in b]
                m = dict(k=kind, b=b)
            d = []
            t = sess[e - 1]
            if r.random() < .15:
                t = r.choice(sess + [123456])
                d = s4(t)
            if bad or ("session" in procs and t not in sess):
                bad = True
            sends.append(dict(side=side, e=e, c=r.randrange(conns) + 1, m=m, d=d, bad=bad,
                              gap=r.choice([0, 0, 0, r.randrange(300)])))
        out.append(dict(cfg=cf, seed=r.randrange(1 << 40), mode=md, sess=[s4(s) for s in sess], sends=sends,
                        hb=r.choice([0, 1, 1]), collect=r.choice([0, 1, 2]), slow=r.choice([0, 10, 200]),
                        cut=r.choice([0, 1, 7, 40, 300]), listen=r.random() < .3,
                        hang=r.choice([0, 0, 1, 2]) if md == "mem" else 0))
    return out


def big(c, n, mode=("mem",)):
    """messages up to the size of large MTUs; recorded by what they were padded from"""
    g, r = Gen(c.rng), c.rng
    out = []
    for k in range(n):
        md = r.choice(mode)
        codec, procs = g.pipeline(codecs=["bytes", "string", "raw", "generic"], frame=True)
        conns = r.choice([1, 2])
        mtu = r.choice([1500, 4096, 5000, 9000, 20000, 66000, 140000])
        cf = g.cfg(procs, conns, 0, mtu=mtu)
        nep = r.choice([1, 2, 4])
        sess = g.sessions(nep)
        if "session" not in procs and 0 not in sess:
            sess[0] = 0
        cf["eps"] = nep
        room = mtu - over(procs) - (codec == "generic")
        sends = []
        for j in range(r.choice([10, 40]) if mtu < 20000 else 12):
            e = r.randrange(nep) + 1
            size = r.choice([12, 500, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, room, room - 1, r.randrange(12, room)])
            size = min(size, room)
            size = size & ~0x808080 if codec == "string" else size
            b = list(b"%08d" % j) + s4(max(12, size))
            sends.append(dict(side=r.randrange(2), e=e, c=r.randrange(conns) + 1, m=dict(k="string" if codec == "string" else "bytes", b=b),
                              d=[], bad=False, gap=r.choice([0, 0, 0, r.randrange(300)])))
        out.append(dict(cfg=cf, seed=r.randrange(1 << 40), mode=md, sess=[s4(s) for s in sess], sends=sends, hb=r.choice([0, 1]), collect=0,
                        slow=r.choice([0, 10, 200]), cut=r.choice([0, 40, 700, 5000]), listen=r.random() < .3, big=True))
    return out


def late(c, n, mode=("mem",)):
    """applications that start to read when more has arrived than the channels hold"""
    g, r = Gen(c.rng), c.rng
    out = []
    for k in range(n):
        md = r.choice(mode)
        codec, procs = g.pipeline(codecs=["bytes", "string", "raw", "generic"], frame=True)
        conns = r.choice([1, 2])
        cf = g.cfg(procs, conns, 0, mtu=r.choice([128, 512]))
        nep = r.choice([1, 2])
        sess = g.sessions(nep)
        if "session" not in procs and 0 not in sess:
            sess[0] = 0
        cf["eps"] = nep
        side = r.randrange(2)
        sends = []
        for j in range(r.choice([600, 800, 1400])):
            sends.append(dict(side=side if r.random() < .95 else 1 - side, e=1 if r.random() < .9 else nep, c=1 if r.random() < .9 else conns,
                              m=dict(k="string" if codec == "string" else "bytes", b=list(b"%d" % j)), d=[], bad=False, gap=0))
        out.append(dict(cfg=cf, seed=r.randrange(1 << 40), mode=md, sess=[s4(s) for s in sess], sends=sends, hb=r.choice([0, 1]), collect=0,
                        slow=0, cut=r.choice([0, 7, 300]), listen=False, late=r.choice([400000, 900000] if md == "mem" else [300000])))
    return out


def jam(c, n):
    """more under way than channels and sockets hold, for longer than a moment"""
    g, r = Gen(c.rng), c.rng
    out = []
    for k in range(n):
        codec, procs = g.pipeline(codecs=["bytes"], frame=True)
        cf = g.cfg(procs, 1, 0, mtu=66000)
        cf["eps"] = 1
        side = r.randrange(2)
        sends = [dict(side=side, e=1, c=1, m=dict(k="bytes", b=list(b"%08d" % j) + s4(60000 + r.randrange(900))),
                      d=[], bad=False, gap=0) for j in range(800)]
        out.append(dict(cfg=cf, seed=r.randrange(1 << 40), mode=["tcp", "uds"][k % 2], sess=[s4(0)], sends=sends, hb=0, collect=0,
                        slow=0, cut=0, listen=False, big=True, late=2500000))
    return out


def judge(c, scripts, what, real=False, race=False, **kw):
    drv = "pairreal" if real else "pair"
    recs = c.execute(drv, scripts, race=race, **kw)
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("PairTrace", [t for t, _ in ok], what, origin=[(drv, s) for _, s in ok])


def references(c, n):
    """two stacks connected by reference transports"""
    g, r = Gen(c.rng), c.rng
    out = []
    for k in range(n):
        procs = [k for k in ("stat", "hb", "lb", "frame", "flow", "stat") if r.random() < .5]
        r.shuffle(procs)
        conns = r.choice([1, 2, 3])
        cf = g.cfg(procs, conns, 1)
        cf["cap"] = 2 * cf["mtu"]
        nep = r.choice([1, 1, 2])
        sends = []
        for j in range(r.choice([5, 30, 100])):
            kind = r.choice(["bytes", "string", "objp", "obj"])
            b = list(json.dumps(dict(N=j, S="s%d" % j, B=None)).encode()) if kind.startswith("obj") else list(b"%d" % j)
            sends.append(dict(side=r.randrange(2), e=r.randrange(nep) + 1, c=r.randrange(conns) + 1, m=dict(k=kind, b=b), d=[], bad=False,
                              gap=r.choice([0, 0, r.randrange(300)])))
        out.append(dict(cfg=cf, seed=r.randrange(1 << 40), mode="ref", sess=[s4(s) for s in ([0] if nep == 1 else [0, 7])], sends=sends,
                        hb=r.choice([0, 1, 1]), collect=r.choice([0, 1, 2]), slow=r.choice([0, 2, 6]), cut=0, listen=r.random() < .3))
    return out
