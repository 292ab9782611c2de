"""Scripts for the refs driver."""


def judge(c, scripts, what, race=False):
    recs = c.execute("refs", scripts, race=race, shard=max(1, min(60, -(-len(scripts) // 8))))
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("RefTrace", [t for t, _ in ok], what, origin=[("refs", s) for _, s in ok])


def op(o, t=0, at=0, old=0):
    return dict(o=o, t=t, at=at, old=old)


def of_model(c, hist, cap):
    """a behaviour of RefMC: [side, operation]; receives wait in lanes of their own"""
    r = c.rng
    at = 0
    main, extra = [], []
    calm = r.random() * 1.3
    for x, o in hist:
        t = 1 if x == "s" else 2
        at += r.choice([0, 1])
        if o in ("recv", "send"):
            extra.append([op(o, t, at)])
        else:
            main.append(op(o, t, at))
            if o == "run":
                extra.append([op("next", t, at)])
        if r.random() < calm:
            at += 1
            main.append(op("quiet", at=at))
            at += 1
    return dict(tps=[dict(a=1, s=True, cap=cap), dict(a=1, s=False, cap=cap)], lanes=[main] + extra)


def random_scripts(c, n, busy=False):
    r = c.rng
    out = []
    for _ in range(n):
        naddr = r.choice([1, 1, 2])
        tps = []
        for a in range(naddr):
            cap = r.choice([1, 1, 2, 3, 8, 512])
            tps += [dict(a=a + 1, s=True, cap=cap), dict(a=a + 1, s=False, cap=cap)]
        if r.random() < .5:
            tps.reverse()
        span = r.choice([0, 3, 20])
        up = [op("run", t + 1) for t in range(len(tps))]
        r.shuffle(up)
        up = up[:r.choice([len(up), len(up), len(up), 1])]
        lanes = [up + [op("next", o["t"]) for o in up if r.random() < .9]]
        for _ in range(r.choice([1, 2, 2, 3] if not busy else [3, 4])):
            own = r.randrange(len(tps)) + 1
            lane = []
            for at in sorted(1 + r.randrange(span + 1) for _ in range(r.choice([2, 5, 9]))):
                t = own if r.random() < .7 else r.randrange(len(tps)) + 1
                o = r.choice(["send"] * 5 + ["recv"] * 5 + ["run", "stop", "next", "next", "close"])
                lane.append(op(o, t, at, r.choice([0, 0, 0, 0, 1, 2])))
            lanes.append(lane)
        lanes.append([op("quiet", at=1 + t) for t in sorted(r.randrange(span + 1) for _ in range(r.choice([0, 1, 3])))])
        out.append(dict(tps=tps, lanes=lanes))
    return out


def storms(c, n):
    """several end the same connection at the same time, again and again"""
    r = c.rng
    out = []
    for _ in range(n):
        main, at = [], 0
        lanes = [[] for _ in range(4)]
        for _ in range(r.choice([10, 20])):
            t = r.choice([1, 2])
            if r.random() < .4:
                for lane, x in zip(lanes, (1, 2, 2, 1)):
                    lane.append(dict(op("run", x, at), sync=True))
                at += 1
                main += [op("next", 1, at), op("next", 2, at)]
            else:
                main += [op("run", 1, at), op("run", 2, at), op("next", 1, at), op("next", 2, at)]
            at += 1
            if r.random() < .3:
                for lane, x in zip(lanes, (1, 2, 2, 1)):
                    lane.append(dict(op("stop", x, at), sync=True))
                at += 1
                main.append(op("quiet", at=at))
                at += 1
                continue
            kinds = r.choice([["close"] * 4, ["close"] * 3 + ["stop"], ["close", "close", "stop", "send"], ["close", "close", "recv", "stop"], ["stop"] * 4])
            for lane, k in zip(lanes, kinds):
                lane.append(dict(op(k, t, at), sync=True))
            at += 1
            main += [op("quiet", at=at), op("stop", 1, at + 1), op("stop", 2, at + 1)]
            at += 2
        out.append(dict(tps=[dict(a=1, s=True, cap=2), dict(a=1, s=False, cap=2)], lanes=[main] + lanes))
    return out
