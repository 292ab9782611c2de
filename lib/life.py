"""Scripts for the life driver."""


def judge(c, scripts, what, race=False):
    recs = c.execute("life", scripts, race=race, shard=max(1, -(-len(scripts) // 8)))
    ok = [(x["trace"], s) for x, s in zip(recs, scripts) if x]
    if ok:
        c.validate("LifeTrace", [t for t, _ in ok], what, origin=[("life", s) for _, s in ok])


def op(o, d=0):
    return dict(o=o, d=d)


def of_model(c, hist):
    """a behaviour of LifeMC: the order in which things are asked for"""
    r = c.rng
    main, dials = [], []
    speed = r.choice([0, 0, 5, 50, 300])
    wait = 0
    for o in hist:
        d = r.randrange(speed + 1)
        wait += d
        if o in ("run", "stop"):
            main.append(op(o, d))
        elif o == "dial":
            dials.append([op("dial", wait)])
    kind = r.choice(["tcp", "uds"])
    return dict(kind=kind, server=True, stack=r.random() < .3, nexters=r.choice([0, 1, 1, 2]), rounds=[[main] + dials], hint=["down"])


def random_scripts(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        server = r.random() < .7
        stack = r.random() < .4
        rounds, hints, last = [], [], []
        state = "down"
        for _ in range(r.choice([1, 2, 3, 4])):
            speed = r.choice([0, 0, 3, 30, 300, 2000])
            d = lambda: r.randrange(speed + 1)
            lanes = []
            main = [op(r.choice(["run", "stop", "run" if state == "down" else "stop"]), d()) for _ in range(r.choice([1, 1, 2, 3, 6]))]
            lanes.append(main)
            state = {"run": "up", "stop": "down"}[main[-1]["o"]]
            last.append("")
            if not stack and r.random() < .3:
                # which of the two lanes has the last word is open: a further call, once both are done, settles it
                lanes.append([op(r.choice(["run", "stop"]), d()) for _ in range(r.choice([1, 2]))])
                last[-1] = r.choice(["run", "stop"])
                state = {"run": "up", "stop": "down"}[last[-1]]
            for _ in range(r.choice([0, 1, 3, 8, 24] if server else [0])):
                lanes.append([op("dial", d() if r.random() < .7 else 3 * speed)])
            rounds.append(lanes)
            hints.append(state)
        out.append(dict(kind=r.choice(["tcp", "uds"]), server=server, stack=stack, nexters=r.choice([0, 1, 1, 2, 3]) if not stack else 1,
                        rounds=rounds, hint=hints, last=last))
    return out


def full(c, n):
    """more connections than the hand-over takes, and nobody asks for them"""
    r = c.rng
    out = []
    for _ in range(n):
        k = r.choice([15, 16, 17, 18, 25, 40])
        rounds = [[[op("run")]], [[op("dial", r.randrange(300))] for _ in range(k)],
                  [[op("stop", r.randrange(500))], [op("dial", r.randrange(500))]], [[op("run"), op("stop")]], [[op("run")]]]
        out.append(dict(kind=r.choice(["tcp", "uds"]), server=True, stack=False, nexters=0, rounds=rounds,
                        hint=["up", "up", "down", "down", "up"]))
    return out
