"""Scripts for the churn driver: connections, endpoints and transports come and go."""


def judge(c, scripts, what, real=False):
    d = "churnreal" if real else "churn"
    recs = c.execute(d, scripts, shard=max(1, min(40, -(-len(scripts) // 8))))
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x and "trace" in x]
    c.compare(d, scripts, [x if x and "fail" in x else None for x in recs], what)
    if ok:
        c.validate("ChurnTrace", [t for t, _ in ok], what, origin=[(d, s) for _, s in ok])


def op(o, c=0, k="", b=()):
    return dict(o=o, c=c, k=k, b=list(b))


def procs(r, gate=False):
    p = [dict(k="bytes", n=0)]
    for k in ("session", "stat", "hb", "lb", "flow", "filter"):
        if r.random() < .35:
            p.append(dict(k=k, n=r.choice([0, 1, 1])))
    if r.random() < .85:
        p.append(dict(k="frame", n=0))
    if gate:
        p.append(dict(k="gate", n=0))
    return p


def piece(r):
    """a piece of traffic: often an incomplete frame"""
    return r.choice([[0, 0], [0, 0, 0, 9], [0, 0, 0, 9, 0, 1], [0, 0, 0, 1, 7], [0, 0, 0, 6, 0, 0, 0, 0, 0, 5, 0, 0, 0],
                     [0, 0, 0, 1, 131, 0], [0], [1], [0, 0, 0, 0], [0, 0, 0, 20] + [0] * 19])


def switches(r, ops, n):
    """processors are off from the begin, or switched now and then"""
    x = r.random()
    if x < .5:
        return ops
    off = [op("off", i) for i in range(1, n + 1) if r.random() < .4]
    if x < .75:
        return off + ops
    out = []
    for o in ops:
        if o["o"] != "rest" and r.random() < .06:
            out.append(op(r.choice(["on", "off"]), r.randrange(n) + 1))
        out.append(o)
    return off + out


def of_model(c, hist, rounds):
    """a behaviour of ChurnMC, again and again with new connections"""
    r = c.rng
    ops = [op("rest")]
    kinds = [r.choice(["eof", "err", "app", "werr"]) for _ in range(8)]
    bytes_ = [piece(r) for _ in range(8)]
    n = max(x[1] for x in hist)
    for k in range(rounds):
        for o, i in hist:
            cid = k * n + i
            if o == "open":
                ops.append(op("open", cid))
            elif o == "feed":
                ops += [op("hold", cid), op("feed", cid, b=bytes_[i])]
            elif o == "go":
                ops.append(op("go", cid))
            elif o == "put":
                ops.append(op("put", cid))
            elif o == "end":
                # the reader is held up: only a write or the application can end it
                ops.append(op("end", cid, kinds[i]))
    ops.append(op("rest"))
    ps = procs(r, True)
    return dict(procs=ps, real="", interval=r.choice([1, 2, 3]), big=r.random() < .4, ops=switches(r, ops, len(ps) - 1))


def random_scripts(c, n, real=False):
    r = c.rng
    out = []
    for _ in range(n):
        ops = [op("rest")]
        nc = ne = nt = 0
        open_, eps, tps = [], [], []
        width = r.choice([1, 2, 5])
        total = r.choice([12, 20, 40]) if not real else r.choice([8, 16, 30])
        kinds = r.choice([["eof", "err", "app", "werr"], ["app"], ["eof"], ["werr"]])
        with_eps = r.random() < .5
        with_tps = not real and r.random() < .4
        while nc < total:
            x = r.random()
            if x < .4 and len(open_) < width:
                nc += 1
                open_.append(nc)
                ops.append(op("open", nc))
            elif x < .65 and open_:
                ops.append(op("feed", r.choice(open_), b=piece(r)))
            elif x < .72 and open_ and not real:
                ops.append(op("put", r.choice(open_)))
            elif x < .75:
                ops.append(op("rest"))
            elif x < .8 and with_eps:
                if eps and r.random() < .6:
                    ops.append(op("del", eps.pop(r.randrange(len(eps)))))
                else:
                    ne += 1
                    eps.append(ne)
                    ops.append(op("add", ne))
            elif x < .86 and with_tps:
                if tps:
                    while tps:
                        ops.append(op("deltp", tps.pop(r.randrange(len(tps)))))
                else:
                    k = r.choice([["fake"], ["server", "client"], ["client", "server"], ["server"]])
                    for y in k:
                        nt += 1
                        tps.append(nt)
                        ops.append(op("addtp", nt, y))
            elif open_:
                ops.append(op("end", open_.pop(r.randrange(len(open_))), r.choice(kinds)))
        ops += [op("end", i, r.choice(kinds)) for i in open_] + [op("del", i) for i in eps] + [op("deltp", i) for i in tps]
        ops.append(op("rest"))
        ps = procs(r)
        out.append(dict(procs=ps, real=r.choice(["tcp", "unix"]) if real else "", interval=r.choice([1, 1, 2, 4]) if not real else 1, big=not real and r.random() < .3,
                        ops=switches(r, ops, len(ps))))
    return out


def parts(c, n):
    """endpoints and transports come and go many times"""
    r = c.rng
    out = []
    for _ in range(n):
        ops = [op("rest")]
        k = r.choice(["ep", "ref", "fake", "oneside"])
        for i in range(1, r.choice([10, 25])):
            if k == "ep":
                ops += [op("add", i), op("del", i)]
            elif k == "ref":
                a, b = r.choice([("server", "client"), ("client", "server")])
                ops += [op("addtp", 2 * i, a), op("addtp", 2 * i + 1, b)]
                x = [op("deltp", 2 * i), op("deltp", 2 * i + 1)]
                r.shuffle(x)
                ops += x
            else:
                ops += [op("addtp", i, "server" if k == "oneside" else "fake"), op("deltp", i)]
        ops.append(op("rest"))
        out.append(dict(procs=procs(r), real="", interval=1, big=r.random() < .5, ops=ops))
    return out
