"""C01: a buffer is an exact bounded byte queue (UBuf.tla)."""
ALL = '{"WriteByte","HeadByte","ReadByte","PeekByte","WriteU","HeadU","ReadU","PeekU","Write","HeadBytes","Read","Peek","WriteTo","ReadFrom","Reset"}'


def cfg(caps, handles, fams, widths, blocks, ops, emit):
    return """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW Layout
INVARIANTS Same Window RefCount
ACTION_CONSTRAINT Emit
CONSTANTS
 Caps = %s
 MaxHandles = %d
 Families = %s
 Widths = %s
 Blocks = %s
 OpNames = %s
 Emitting = %s
""" % (caps, handles, fams, widths, blocks, ops, "TRUE" if emit else "FALSE")


def run(c):
    c.assumptions = ["byte values are data independent in ubuf.go apart from being stored and returned",
                     "readers and writers obey the io.Reader/io.Writer contracts"]
    caps = c.pick("{1,2,4,9}", "{1,2,3,4,5,8,9,12}")
    blocks = c.pick("{0,1,2,3,9}", "{0,1,2,3,5,9,13}")
    tests = c.generate("UBufCow", cfg(caps, 1, "{{2}}", "{2,4,8}", blocks, ALL, True),
                       "one buffer, every layout, every operation", limit=c.pick(40000, 400000))
    recs = c.execute("ubuf", tests, shard=4000)
    c.compare("ubuf", tests, recs, "every transition of the buffer")
    n = c.pick(240, 3000)
    scripts = []
    for i in range(n):
        cap = c.rng.choice([1, 2, 3, 5, 8, 16, 31, 64, 64, 100, 255, 256, 257, 300])
        scripts.append(dict(seed=c.rng.randrange(1 << 40), steps=c.pick(120, 200), cap=cap, handles=1, fam=[2],
                            res=c.rng.choice([0, 0, cap, cap // 2, c.rng.randint(0, cap)]), **{"from": c.rng.random() < .4}))
    recs = c.execute("ubufrand", scripts)
    ok = [(r["trace"], ("ubufrand", s)) for r, s in zip(recs, scripts) if r]
    c.validate("UBufTrace", [t for t, _ in ok], "random histories of one buffer", origin=[o for _, o in ok])
