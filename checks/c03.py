"""C03: copy-on-write relatives may be used from different goroutines
(CowRace.tla, UBuf.tla)."""


def cfg(handles, writes, release="after", atomic=True, inv="Private NoRace"):
    return """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS %s
CONSTANTS MaxHandles = %d MaxWrites = %d Release = "%s" Atomic = %s
""" % (inv, handles, writes, release, "TRUE" if atomic else "FALSE")


def run(c):
    c.assumptions = ["schedules of the implementation are sampled; data races are found by happens-before "
                     "analysis, which does not need the bad schedule itself to occur",
                     "each handle is used by one goroutine at a time"]
    c.model("CowRace", cfg(3, 2), "every interleaving, 3 goroutines, 2 writes each")
    if c.thorough:
        c.model("CowRace", cfg(4, 1), "every interleaving, 4 goroutines, 1 write each")
    c.model("CowRace", cfg(3, 1, release="before", inv="NoRace"), "release before copy", expect_violation="NoRace is violated")
    c.model("CowRace", cfg(3, 2, atomic=False), "plain reference count", expect_violation="is violated")
    for race, n in ((True, c.pick(1600, 12000)), (False, c.pick(800, 12000))):
        scripts = []
        for i in range(n):
            cap = c.rng.choice([8, 12, 16, 24])
            scripts.append(dict(seed=c.rng.randrange(1 << 40), cap=cap, res=c.rng.choice([0, 4, cap // 2]),
                                steps=c.rng.choice([2, 4, 8, 16]), handles=c.rng.choice([2, 2, 3, 4, 6]), rounds=6))
        recs = c.execute("cowconc", scripts, race=race, shard=100)
        ok = [(r["trace"], ("cowconc", s)) for r, s in zip(recs, scripts) if r]
        ok = ok[:c.pick(160, 2000)]
        if ok:
            c.validate("UBufTrace", [t for t, _ in ok], "concurrent histories%s" % (" under the race detector" if race else ""),
                       origin=[o for _, o in ok])
