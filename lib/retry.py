"""Scripts for the retry driver."""


def judge(c, scripts, what, race=False):
    recs = c.execute("retry", scripts, race=race, shard=max(1, min(60, -(-len(scripts) // 8))))
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("RetryTrace", [t for t, _ in ok], what, origin=[("retry", s) for _, s in ok])


def of_model(c, hist, budget):
    """a behaviour of RetryMC: [half intervals, operation]"""
    r = c.rng
    iv = r.choice([1, 1, 2, 5])
    ops = [dict(t=500 * iv * t, o=o) for t, o in hist]
    last = ops[-1]["t"] if ops else 0
    return dict(kind=r.choice(["tcp", "uds"]), budget=budget, interval=iv, ops=ops + [dict(t=last + 1000 * iv * (budget + 2), o="end")])


def random_scripts(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        budget = r.choice([-1, 0, 1, 1, 2, 3, 5, 10, 60])
        iv = r.choice([-1, 0, 1, 1, 2, 7])
        i = 1 if iv < 0 else iv
        b = 180 if budget < 0 else budget
        ops, t, on, running, free = [], 0, False, False, 0
        if r.random() < .3:
            ops.append(dict(t=0, o="on"))
            on = True
            t = .5
        for _ in range(r.choice([2, 4, 8])):
            # runs begin at whole intervals, everything else happens in between
            if not running or t >= free:
                t = int(t) + 1
                ops.append(dict(t=int(1000 * t), o="run"))
                if r.random() < .1:
                    ops.append(dict(t=int(1000 * t), o="run2"))
                running = True
                free = t + (b + 1) * i
                stay = i * r.choice([1, 2, max(1, b - 1), b, b + 1, b + 2])
            else:
                x = r.random()
                k = r.choice([0, 0, 1, 1, 2, 3, max(0, b - 1), b])
                t = int(t) + k * max(i, 1) + r.choice([.25, .5, .75])
                if x < .3 or t >= free:
                    ops.append(dict(t=int(1000 * t), o="stop"))
                    running = False
                    if r.random() < .2:
                        ops.append(dict(t=int(1000 * t), o="stop"))
                else:
                    on = not on
                    ops.append(dict(t=int(1000 * t), o="on" if on else "off"))
        ops = [o for o in ops if o["o"] != "run2"]
        ops.append(dict(t=int(1000 * (t + 2 + (b + 2) * i)), o="end"))
        out.append(dict(kind=r.choice(["tcp", "uds"]), budget=budget, interval=iv, ops=ops))
    return out
