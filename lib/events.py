"""Scripts for the events driver."""


def judge(c, scripts, what, race=False, **kw):
    recs = c.execute("events", scripts, race=race, shard=max(1, min(60, -(-len(scripts) // 8))), **kw)
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("EventsTrace", [t for t, _ in ok], what, origin=[("events", s) for _, s in ok])


def op(o, a="", t=0, inner=None):
    return dict(t=t, o=o, a=a, **{"in": inner or []})


def of_model(c, hist):
    """a behaviour of EventsMC: [thread, depth, operation, endpoint, in whose handler]"""
    r = c.rng
    lanes, stack = {}, {}
    t = 2
    for th, depth, k, e, x in hist:
        o = op(k, "e%d" % e if e else "", t)
        if depth == 0:
            if r.random() < .3:
                t += 1
            o["t"] = t
            lanes.setdefault(th, []).append(o)
            stack[th] = [o]
        else:
            stack[th] = stack[th][:depth]
            stack[th][-1]["in"].append(dict(x="e%d" % x, ops=[o]))
            stack[th].append(o)
    first = [op("run")] if r.random() < .8 else []
    lanes = [first] + list(lanes.values()) + [[op("list", t=t + 5)]]
    return dict(listeners=r.choice([0, 1, 2]), procs=r.choice([0, 1, 2]), feats=r.choice([0, 1]), lanes=lanes, alike=r.random() < .4)


def random_ops(r, depth, who, t):
    """operations with what handlers do in between"""
    k = r.choice(["add", "add", "del", "del", "pub", "pub", "addtp", "deltp", "list", "listtp", "listen"])
    a = ""
    if k in ("add", "del"):
        a = "e%d" % r.randrange(1, who["eps"] + 1)
    elif k in ("addtp", "deltp"):
        a = "t%d" % r.randrange(1, who["tps"] + 1)
    elif k == "listen":
        if who["new"] >= 3:
            k = "pub"
        else:
            who["new"] += 1
            a = "l%d" % (10 + who["new"])
    o = op(k, a, t)
    if depth < 3 and k not in ("list", "listtp", "listen"):
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            x = r.choice(who["all"] + ["e%d" % (j + 1) for j in range(who["eps"])])
            o["in"].append(dict(x=x, ops=[random_ops(r, depth + 1, who, t) for _ in range(r.choice([1, 1, 2]))]))
    return o


def random_scripts(c, n, lanes=(1, 1, 2, 3)):
    r = c.rng
    out = []
    for _ in range(n):
        ls, ps, fs = r.choice([1, 1, 2, 3]), r.choice([0, 1, 3]), r.choice([0, 1, 2])
        who = dict(eps=r.choice([1, 2, 3, 5]), tps=r.choice([1, 2]), new=0,
                   all=["l%d" % (k + 1) for k in range(ls)] + ["p%d" % (k + 1) for k in range(ps)] + ["f%d" % (k + 1) for k in range(fs)])
        first = [op("add", "e%d" % (k + 1)) for k in range(who["eps"]) if r.random() < .6]
        running = r.random() < .8
        if running:
            first.append(op("run"))
        nl = r.choice(lanes)
        ll = [first]
        span = r.choice([0, 0, 3, 10])
        for _ in range(nl):
            ts = sorted(2 + r.randrange(span + 1) for _ in range(r.randrange(2, 10 if nl == 1 else 6)))
            ll.append([random_ops(r, 0, who, t) for t in ts])
        end = [op("list", t=30), op("listtp", t=30), op("pub", t=30)]
        if running and r.random() < .5:
            # connections come and go: the stack publishes by itself
            end += [op("addtp", "t9", 31), op("quiet", t=31)]
            for k in range(1, 4):
                end.append(op("open", "c%d@t9" % k, 32))
                if r.random() < .5:
                    end.append(op("quiet", t=32))
            end.append(op("quiet", t=33))
            for k in range(1, 4):
                if r.random() < .7:
                    end.append(op("eof", "c%d" % k, 34))
            ll.append([op(r.choice(["add", "del"]), "e%d" % r.randrange(1, who["eps"] + 1), r.choice([32, 34])) for _ in range(r.choice([0, 0, 2]))])
            ll[-1].sort(key=lambda o: o["t"])
            end.append(op("quiet", t=40))
        ll.append(end)
        out.append(dict(listeners=ls, procs=ps, feats=fs, lanes=ll, alike=r.random() < .4))
    return out
