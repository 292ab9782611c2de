"""Settings: histories of ConfMC laid over the scripts of the other drivers, and scripts for the conf driver."""
from . import live, refs, retry, stack

OPTIONS = {"stack": ["MTU"], "frame": ["CacheCapacity"], "stat": ["Collect.IntervalInSecond"],
           "hb": ["IntervalInSecond", "TimeoutInSecond", "CloseOnLost"],
           "tcp": ["MaxRetryCount", "RetryIntervalInSecond"], "ref": ["MaxQueueSize"]}
NAMES = sorted({n for ns in OPTIONS.values() for n in ns} | {"mtu", "", "session", "x"})
WRONG = ["text", "int64", "uint32", "float", "list", "nil"]


def value(r, name, x, want):
    """a value of the model: the wanted one, another one of the type, or one that does not count"""
    kind = "bool" if name == "CloseOnLost" else "int"
    if x["t"] == "text":
        t = r.choice(WRONG + (["int", "int"] if kind == "bool" else ["bool", "bool"]))
        return t, (0 if t == "nil" else r.choice([0, 1]) if t == "bool" or kind == "bool" else r.choice([0, 1, r.randrange(1, 4000)]))
    if x["t"] == "nil":
        return "nil", 0
    if kind == "bool":
        return kind, want if x["v"] == 1 else 1 - want
    return kind, want if x["v"] == 1 else r.choice([1, 2, 3, want + 1, 2 * want, 100, 5000])


def history(c, hists, comp, name, want, default):
    """a history of settings of one component after which it goes by want"""
    r = c.rng
    # model: option x of the component; y stands for other names
    fit = [h for h in hists if h["eff"]["a"] == 1 or (h["eff"]["a"] == 9 and want == default)]
    h = r.choice(fit)
    out = []
    for x in h["log"]:
        if x["c"] == "a" and x["n"] == "x":
            t, v = value(r, name, x, want)
            out.append(dict(c=comp, n=name, t=t, v=v))
        elif x["c"] == "a":  # another name, at the same component
            others = [n for n in NAMES if n not in OPTIONS.get(comp, [])]
            t, v = value(r, "", x, want)
            out.append(dict(c=comp, n=r.choice(others), t=t, v=v))
        else:  # the same name, at another component
            other = r.choice([k for k in ("stack", "frame", "stat", "hb", "session", "bytes") if k != comp])
            if name not in OPTIONS.get(other, []):
                t, v = value(r, name, x, want)
                out.append(dict(c=other, n=name, t=t, v=v))
    return out


def merge(r, lists):
    """the lists in some interleaving"""
    out, lists = [], [l for l in lists if l]
    while lists:
        l = r.choice(lists)
        out.append(l.pop(0))
        lists = [l for l in lists if l]
    return out


def dress(c, hists, script):
    """give a script of the stack or live driver its parameters through settings"""
    cf = script["cfg"]
    parts = [history(c, hists, "stack", "MTU", cf["mtu"], 2048)]
    kinds = [p["k"] for p in cf["procs"]]
    if "frame" in kinds:
        parts.append(history(c, hists, "frame", "CacheCapacity", cf["cap"], 2 * cf["mtu"]))
    if "hb" in kinds and "hb" in script:
        hb = script["hb"]
        parts.append(history(c, hists, "hb", "IntervalInSecond", hb["interval"], 1))
        parts.append(history(c, hists, "hb", "TimeoutInSecond", hb["timeout"], 30))
        parts.append(history(c, hists, "hb", "CloseOnLost", hb["close"], 1))
    if "stat" in kinds:
        parts.append(history(c, hists, "stat", "Collect.IntervalInSecond", script.get("collect", 0), 0))
    script["sets"] = merge(c.rng, parts)
    if "hb" not in script:  # the heartbeats of these scripts never come
        script["sets"] = [s for s in script["sets"] if s["c"] != "hb"]
    script["cfg"]["capop"] = False
    return script


def of_retry(c, hists, script):
    r = c.rng
    parts = []
    for name, key, default in (("MaxRetryCount", "budget", 180), ("RetryIntervalInSecond", "interval", 1)):
        want = script[key] if script[key] >= 0 else default
        parts.append([x for x in history(c, hists, "tcp", name, want, default) if x["c"] == "tcp"])
        script[key] = -1
    script["ops"] = [dict(t=0, o="set", set=x) for x in merge(r, parts)] + script["ops"]
    return script


def restarts(c, hists, n):
    """a client that is started again with other settings"""
    r = c.rng
    out = []
    for _ in range(n):
        ops, t = [], 0
        for _ in range(r.choice([2, 3])):
            b, i = r.choice([0, 1, 2, 5, 180]), r.choice([1, 1, 2, 3])
            parts = []
            for name, want, default in (("MaxRetryCount", b, 180), ("RetryIntervalInSecond", i, 1)):
                h = [x for x in history(c, hists, "tcp", name, want, default) if x["c"] == "tcp"]
                if not any(x["n"] == name for x in h):
                    h.append(dict(c="tcp", n=name, t="nil", v=0))
                parts.append(h)
            ops += [dict(t=1000 * t, o="set", set=x) for x in merge(r, parts)]
            ops.append(dict(t=1000 * t, o="run"))
            t += i * r.choice([1, b, b + 1])
            ops.append(dict(t=1000 * t + 500, o="stop"))
            t += 1
        ops.append(dict(t=1000 * t, o="end"))
        out.append(dict(kind=r.choice(["tcp", "uds"]), budget=-1, interval=-1, ops=ops))
    return out


def queues(c, hists, n):
    """hand-over queues of the size set, filled from either side, and again with another size"""
    r = c.rng
    out = []
    for k in range(n):
        first = r.choice([1, 2])
        main, extra, at = [], [], 0
        for _ in range(r.choice([1, 2, 2])):
            size = 512 if k % 8 == 0 else r.choice([1, 2, 3, 5, 8])
            for t in (1, 2):
                h = [x for x in history(c, hists, "ref", "MaxQueueSize", size, 512) if x["c"] == "ref"]
                if not any(x["n"] == "MaxQueueSize" for x in h):
                    h.append(dict(c="ref", n="MaxQueueSize", t=r.choice(WRONG), v=7))
                main += [dict(o="set", t=t, at=at, old=0, set=x) for x in h]
            main += [refs.op("run", first, at), refs.op("run", 3 - first, at), refs.op("next", 1, at), refs.op("next", 2, at)]
            at += 1
            side = r.choice([1, 2])
            over = r.choice([0, 0, 1, 2])
            extra.append([refs.op("send", side, at)] * (size + over - 1 if over else size))
            extra += [[refs.op("send", side, at + 1)]] * (1 if over else 0)
            at += 2
            main.append(refs.op("quiet", at=at))
            at += 1
            extra.append([refs.op("recv", 3 - side, at)] * r.choice([1, 2, 3]))
            at += 1
            main.append(refs.op("quiet", at=at))
            at += 1
            main += [refs.op("stop", 1, at), refs.op("stop", 2, at)]
            at += 1
            main.append(refs.op("quiet", at=at))
            at += 1
        out.append(dict(tps=[dict(a=1, s=True, cap=0), dict(a=1, s=False, cap=0)], lanes=[main] + extra))
    return out


def asked_back(c, n):
    """everything that can be put in and asked back, in several stacks"""
    r = c.rng
    out = []
    for _ in range(n):
        m = r.choice([1, 2, 2, 3])
        kinds = ["session", "stat", "hb", "lb", "flow", "frame", "echo", "discard", "loop"]
        procs = [["bytes"] + r.sample(kinds, r.randrange(len(kinds) + 1)) for _ in range(m)]
        feats = [r.choice(["f", "f", "g", ""]) for _ in range(r.randrange(5))]
        comps = ["%s%d" % (k, u + 1) for u in range(m) for k in ["stack", "tcp", "uds", "ref", "context"] + procs[u]]
        comps += ["feature%d" % (k + 1) for k in range(len(feats))]
        hot, names = r.sample(comps, min(len(comps), 4)), r.sample(NAMES, 4)
        running, ops = set(), []
        used = set()
        for _ in range(r.choice([6, 20, 50])):
            u = r.randrange(m) + 1
            o = r.choice(["set"] * 4 + ["get"] * 3 + ["run", "mtu", "over", "rename", "name", "name", "addfeat", "feat", "feats", "addep", "addep",
                                                      "delep", "eps", "addtp", "addtp", "deltp", "tps"])
            x = dict(o=o, u=u)
            if o in ("set", "get"):
                t = r.choice(["int", "int", "bool"] + WRONG)
                comp = r.choice(hot if r.random() < .7 else comps)
                x["set"] = dict(c=comp, n=r.choice(names), t=t, v=0 if t == "nil" else r.choice([0, 1]) if t == "bool" else r.randrange(1, 5000))
                if comp == "stack%d" % u and r.random() < .5:
                    x["set"]["n"] = "MTU"
            elif o == "run":
                if u in running:
                    continue
                running.add(u)
            elif o in ("mtu", "over"):
                if u not in running:
                    continue
            elif o == "rename":
                x["s"] = r.choice(["a", "b", "UStack", ""])
            elif o == "addfeat":
                free = [k + 1 for k in range(len(feats)) if k + 1 not in used]
                if u in running or not free:
                    continue
                x["k"] = r.choice(free)
                used.add(x["k"])
            elif o == "feat":
                x["s"] = r.choice(["f", "g", "", "h"])
            elif o in ("addep", "delep"):
                x["k"] = u + m * r.randrange(3)  # never in two stacks
            elif o in ("addtp", "deltp"):
                x["k"] = u + m * r.randrange(3)
            ops.append(x)
        # at the end everything is asked back
        for u in range(1, m + 1):
            if u not in running and r.random() < .8:
                running.add(u)
                ops.append(dict(o="run", u=u))
            for o in ("mtu", "over") if u in running else ():
                ops.append(dict(o=o, u=u))
            ops += [dict(o=o, u=u) for o in ("name", "feats", "eps", "tps")] + [dict(o="feat", u=u, s=s) for s in ("f", "g", "")]
        for comp, name in sorted({(x["set"]["c"], x["set"]["n"]) for x in ops if x["o"] == "set"}):
            ops.append(dict(o="get", set=dict(c=comp, n=name, t="nil", v=0)))
        for comp in hot:
            ops.append(dict(o="get", set=dict(c=comp, n=r.choice(names), t="nil", v=0)))
        out.append(dict(procs=procs, feats=feats, eps=3 * m, tps=3 * m, ops=ops))
    return out


def judge(c, scripts, what):
    recs = c.execute("conf", scripts, shard=max(1, min(60, -(-len(scripts) // 8))))
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("ConfTrace", [t for t, _ in ok], what, origin=[("conf", s) for _, s in ok])
