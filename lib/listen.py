"""Scripts for the listen driver."""


def judge(c, scripts, what, race=False):
    recs = c.execute("listen", scripts, race=race, shard=max(1, min(60, -(-len(scripts) // 8))))
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("ListenTrace", [t for t, _ in ok], what, origin=[("listen", s) for _, s in ok])


def op(o, a=0, t=0, c=0):
    return dict(t=t, o=o, a=a, c=c)


def of_model(c, hist):
    """a behaviour of ListenMC: [inside the call for which message, operation, argument]"""
    r = c.rng
    stack = r.random() < .5
    react, lane, other = {}, [], []
    calm = r.random()
    lanes = r.random() < .3
    t = 0
    for where, o, a in hist:
        if where:
            react.setdefault(str(where), []).append(op(o, a))
            continue
        if r.random() < .3:
            t += 1
        if lanes and o == "put":
            other.append(op(o, a, t))
            continue
        lane.append(op(o, a, t))
        if r.random() < calm:
            lane.append(op("quiet", t=t))
    for k in react.values():
        if r.random() < .3:
            k.insert(r.randrange(len(k) + 1), op("sleep", r.choice([1, 3, 10])))
    return dict(stack=stack, conns=1, lanes=[lane, other], react=react)


def random_scripts(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        stack = r.random() < .5
        conns = r.choice([1, 1, 2, 3])
        nmsg = r.choice([3, 8, 20, 40])
        span = r.choice([0, 2, 10, 30])
        lanes, react = [], {}
        for k in range(conns):
            ms = [m for m in range(1, nmsg + 1) if m % conns == k]
            ts = sorted(r.randrange(span + 1) for _ in ms)
            lanes.append([op("put", m, t, k) for m, t in zip(ms, ts)])
        weight = r.choice([["set"], ["set", "set", "take"], ["set", "take"]])
        nothing = r.choice([.1, .3, .7])
        for _ in range(r.choice([1, 1, 2, 3])):
            ts = sorted(r.randrange(span + 1) for _ in range(r.randrange(1, 10)))
            lane = []
            for t in ts:
                o = r.choice(weight)
                lane.append(op(o, 0 if o == "take" or r.random() < nothing else r.randrange(1, 5), t))
            lanes.append(lane)
        lanes.append([op("quiet", t=t) for t in sorted(r.randrange(span + 1) for _ in range(r.choice([0, 1, 3])))])
        for m in range(1, nmsg + 1):
            if r.random() < .3:
                react[str(m)] = [op("sleep", r.choice([1, 2, 5])) if r.random() < .5 else
                                 op("set", 0 if r.random() < nothing else r.randrange(1, 5)) for _ in range(r.choice([1, 1, 2, 3]))]
        out.append(dict(stack=stack, conns=conns, lanes=lanes, react=react))
    return out


def flicker(c, n):
    """the listener goes and comes back while a message is arriving, again and again"""
    r = c.rng
    out = []
    for _ in range(n):
        stack = r.random() < .3
        lane, m = [op("set", 1)], 0
        for _ in range(r.choice([20, 40])):
            late = []
            for _ in range(r.choice([1, 1, 1, 2])):
                m += 1
                (lane if r.random() < .3 else late).append(op("put", m))
            lane += [op("set", 0), op("spin", r.randrange(r.choice([300, 3000, 10000, 30000]))), op("set", r.randrange(1, 4))] if r.random() < .8 else [op("set", r.randrange(1, 4)), op("set", 0), op("set", 2)]
            lane += late + [op("quiet")]
        out.append(dict(stack=stack, conns=1, lanes=[lane], react={}))
    return out
