"""C02: snapshots are independent (UBuf.tla, UBufCow.tla)."""
from checks.c01 import cfg
OPS = '{"WriteByte","HeadByte","ReadByte","Write","ReadFrom","HeadBytes","Reset","WriteU","HeadU"}'


def run(c):
    c.assumptions = ["reference and copy-on-write snapshots of one buffer are not combined"]
    fams = "{{0,2},{1,2},{1}}"
    tests = c.generate("UBufCow", cfg(c.pick("{2,3}", "{2,3,4}"), 2, fams, "{2}", "{0,1,2}", OPS, True),
                       "pairs of relatives, every layout and sharing state", limit=c.pick(80000, 500000))
    tests += c.generate("UBufCow", cfg("{2}", 3, "{{0,2},{1}}" if not c.thorough else fams, "{2}", "{1}",
                                       '{"WriteByte","HeadByte","ReadByte","Reset"}', True),
                        "trees of three relatives", limit=c.pick(80000, 500000))
    recs = c.execute("ubuf", tests, shard=4000)
    c.compare("ubuf", tests, recs, "every transition of small snapshot trees")
    if c.thorough:
        c.model("UBufCow", cfg("{1,2}", 4, "{{0},{1},{1,2}}", "{2}", "{1}", '{"WriteByte","HeadByte","ReadByte","Reset"}', False),
                "four relatives, refinement only")
    scripts = []
    for i in range(c.pick(240, 3000)):
        cap = c.rng.choice([1, 2, 3, 8, 12, 24, 64])
        scripts.append(dict(seed=c.rng.randrange(1 << 40), steps=c.pick(120, 200), cap=cap, handles=c.rng.choice([2, 3, 4, 6]),
                            fam=c.rng.choice([[0], [0, 2], [1], [1], [1, 2], [2]]),
                            res=c.rng.choice([0, cap, cap // 2, c.rng.randint(0, cap)]), **{"from": c.rng.random() < .4}))
    recs = c.execute("ubufrand", scripts)
    ok = [(r["trace"], ("ubufrand", s)) for r, s in zip(recs, scripts) if r]
    c.validate("UBufTrace", [t for t, _ in ok], "random histories of snapshot trees", origin=[o for _, o in ok])
