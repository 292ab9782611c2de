"""Scripts for the stack driver, by subject."""
from .gen import Gen, s4, over, SESS


def sprinkle(c, scripts):
    """events that do not concern the data path happen here and there, and some
    connections end together with the last they carry"""
    r = c.rng
    out = []
    for s in scripts:
        if r.random() < .3:
            ops, seen = list(s["ops"]), set()
            for i in range(len(ops) - 1, -1, -1):
                o = ops[i]
                if o["o"] == "back":
                    seen |= {o["c"], o["e"]}
                if o["o"] == "read" and o["c"] not in seen and r.random() < .5 and o["b"]:
                    ops[i] = dict(o, o="readend")
                if o.get("c"):
                    seen.add(o["c"])
            s = dict(s, ops=ops)
        if r.random() < .4:
            ops = list(s["ops"])
            for _ in range(r.choice([1, 2, 3])):
                at = r.randrange(max(0, s.get("run") or 0), len(ops) + 1)
                ops.insert(at, dict(o="event", c=r.choice([1, 1, 2]), p=r.choice([0, 0, 0, 1, 2, 3, 4])))
            s = dict(s, ops=ops)
        out.append(s)
    return out


def judge(c, scripts, what, shard=None, race=False):
    scripts = sprinkle(c, scripts)
    recs = c.execute("stack", scripts, shard=shard, race=race)
    ok = [(r["trace"], s) for r, s in zip(recs, scripts) if r]
    if ok:
        c.validate("StackTrace", [t for t, _ in ok], what, origin=[("stack", s) for _, s in ok])


MC_INV = "ExactlyOnce Prompt Bounded WholeOrNothing Counted CutsDoNotMatter"


def mc(which, send, chunk, conns, close=False, garbage=0, record=False, spec="Spec"):
    return """SPECIFICATION %s
CHECK_DEADLOCK FALSE
INVARIANTS %s
PROPERTY OnlyOversized
CONSTANTS Which = "%s" MaxSend = %d MaxChunk = %d Conns = %d MayClose = %s Garbage = %d Record = %s
""" % (spec, "Emit" if record else MC_INV, which, send, chunk, conns, str(close).upper(), garbage, str(record).upper())


def models(c, *cfgs):
    for a in cfgs:
        c.model("StackMC", mc(*a), "two stacks %s: %d messages, reads up to %d, %d connections%s%s" % (
            a[:4] + (", ending at any point" if len(a) > 4 and a[4] else "", ", %d arbitrary bytes" % a[5] if len(a) > 5 and a[5] else "")))


def behaviours(c, n, *a, simulate=None, eager=True):
    """scripts printed by the model"""
    a = tuple(a) + (False, 0)[len(a) - 4:]
    return c.generate("StackMC", mc(*a, record=True, spec="Eager" if eager else "Spec"),
                      "scripts from two stacks %s" % (a,), limit=n, simulate=simulate)


def pipes(kinds, above, below, codec, framed, ops, record):
    return """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS %s
CONSTANTS Kinds = {%s} Above = %d Below = %d Codec = "%s" Framed = %s MaxOps = %d Record = %s
""" % ("Emit" if record else "StepsAside InOrder Blocks Swallows Reflects EchoReturns Through", ",".join('"%s"' % k for k in kinds), above, below, codec,
       str(framed).upper(), ops, str(record).upper())


def start(g, procs, sess, conns=1):
    ops = g.off_lb(procs)
    ops += [dict(o="addep", e=i + 1, s=s4(s)) for i, s in enumerate(sess)]
    ops += [dict(o="open", c=i + 1, ref=False) for i in range(conns)]
    return ops


def framing(c, n, big=False):
    """C04: frames of all sizes, cut in every way"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        codec, procs = g.pipeline(codecs=["raw", "raw", "bytes", "generic"], below=("session", "stat", "hb", "flow"))
        mtu = r.choice([over(procs) + 40, over(procs) + 60, 64, 100, 256, 2048])
        mtu = max(mtu, over(procs) + 40)
        cap = r.choice([None, None, 64, 40 + over(procs), 4096, mtu, 257])
        if big:
            mtu = r.choice([2048, 70000])
            cap = r.choice([None, 65536 + 300, 70000])
        cf = g.cfg(procs, 1, 2, mtu=mtu, cap=cap)
        capacity = cf["cap"]
        sess = [0] + g.sessions(2)
        sess = list(dict.fromkeys(sess))[:2]
        ops = start(g, procs, sess)
        inner = over(procs) + 1 + (codec == "generic")
        stream = []
        for _ in range(r.choice([1, 2, 3, 6, 12])):
            lim = capacity - inner
            if big:
                room = r.choice([250, 251, 252, 255, 256, 257, 65530, 65535, 65536, 65537])
                k = min(lim, room)
            else:
                k = g.size(min(lim, 300))
            if r.random() < .15:
                k = max(0, lim if not big else k)
            pay = g.data(k) if r.random() > .1 else []
            if codec == "generic" and pay and pay[0] == 255:
                pay[0] = 1
            stream += g.encode(procs, pay, r.choice(sess))
        if big:
            ch, at = [], 0
            while at < len(stream):
                k = r.choice([1, 3, 4, 5, 200, 1448, 65536, len(stream)])
                ch.append(stream[at:at + k])
                at += k
        else:
            ch = g.cuts(stream)
        for b in ch:
            ops.append(dict(o="read", c=1, b=b))
        out.append(dict(cfg=cf, ops=ops))
    return out


def interleaved(c, n):
    """C05: several connections, frames cut and interleaved, connections closed
    in the middle of a frame, others opened"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        codec, procs = g.pipeline(codecs=["raw", "bytes", "generic", "string"])
        nconn = r.choice([2, 2, 3, 5, 20])
        cf = g.cfg(procs, 2 * nconn, 2, cap=r.choice([None, None, None, 64]))
        sess = g.sessions(2)
        ops = start(g, procs, sess, nconn)
        lim = min(cf["cap"], cf["mtu"]) - over(procs) - 2
        queues = {}
        for k in range(1, nconn + 1):
            st = []
            for _ in range(r.randrange(1, 6)):
                st += g.encode(procs, [k] + g.data(g.size(min(lim, 60)))[:lim - 1], r.choice(sess))
            queues[k] = g.cuts(st)
        fresh = nconn
        while queues:
            k = r.choice(list(queues))
            if not queues[k]:
                del queues[k]
                continue
            b = queues[k].pop(0)
            x = r.random()
            if x < .02 and fresh < 2 * nconn:
                ops.append(dict(o="close", c=k))
                del queues[k]
                fresh += 1
                ops.append(dict(o="open", c=fresh, ref=False))
                queues[fresh] = g.cuts(g.encode(procs, [fresh] + g.data(3), sess[0]))
                continue
            ops.append(dict(o="readend" if x < .03 else "read", c=k, b=b))
        out.append(dict(cfg=cf, ops=ops))
    return out


def garbage(c, n):
    """C06: anything from the peers of several connections"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        codec, procs = g.pipeline(frame=r.random() < .7)
        cf = g.cfg(procs, 3, 2, cap=r.choice([None, None, 64, 20, 300]))
        sess = g.sessions(2)
        if "session" not in procs and r.random() < .8:
            sess[0] = 0
            sess[1] = 7
        ops = start(g, procs, sess, 3)
        if r.random() < .5:  # a load balancer that is on keeps its own messages to itself
            ops = [o for o in ops if o["o"] != "enable"]
        if codec in ("gob", "ggob"):
            ops += [dict(o="send", e=1, c=3, m=dict(k="obj", b=g.jobj()), d=[]) for _ in range(3)]
        for _ in range(r.choice([4, 10, 30])):
            k = r.choice([1, 1, 1, 2])
            m = r.randrange(8)
            if codec in ("gob", "ggob") and m < 3:
                ops.append(dict(o="back", c=3, e=k, b=[r.randrange(1, 40)],
                                d=[] if m == 0 else [r.randrange(500), 1 << r.randrange(8)]))
                ops.append(dict(o="send", e=r.choice([1, 2]), c=3, m=dict(k="obj", b=g.jobj()), d=[]))
                continue
            if m == 0:
                b = g.data(r.choice([1, 2, 3, 4, 5, 9, 33]))
            elif m == 1:
                b = g.data(r.randrange(1, cf["mtu"] + 1))
            elif m == 2 and "frame" in procs:  # a length field of any kind
                b = r.choice([[0, 0, 0, 0], [0, 0, 0, 1], [255] * 4, [127, 255, 255, 255], [128, 0, 0, 0], [0, 1, 0, 0],
                              s4(cf["cap"] - 4), s4(cf["cap"] - 3), s4(cf["cap"] - 5), s4(cf["mtu"])]) + g.data(r.randrange(6))
            else:
                b = []
                for _ in range(r.randrange(1, 4)):
                    e = g.encode(procs, g.payload(codec, 30), r.choice(sess + [99]))
                    y = r.random()
                    if y < .15 and e:
                        e[r.randrange(len(e))] ^= 1 << r.randrange(8)
                    elif y < .22:
                        e = e[:r.randrange(len(e) + 1)]
                    elif y < .4:  # a proper frame around something too short or strange
                        e = g.encode(["frame"] if "frame" in procs else [], g.data(r.randrange(8)), 0)
                    b += e
            for ch in g.cuts(b):
                ops.append(dict(o="read", c=k, b=ch))
        # afterwards a proper message on every connection
        for k in (2, 1, 3):
            ops.append(dict(o="read", c=k, b=g.encode(procs, self_payload(g, codec), sess[0]) or [1]))
        out.append(dict(cfg=cf, ops=ops))
    return out


def self_payload(g, codec):
    return g.jobj() if codec in ("json", "gob", "ggob") else [97, 98, 99]


def outgoing(c, n):
    """C07/C08: what endpoints send is on the wire whole or not at all"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        codec, procs = g.pipeline(frame=r.random() < .7)
        cf = g.cfg(procs, 3, 3)
        if r.random() < .3:  # hardly any room
            cf["mtu"] = over(procs) + 20 + len(cf["name"]) + r.randrange(4)
            cf["cap"] = 2 * cf["mtu"]
        if r.random() < .04:
            cf["mtu"] = 66000
            cf["cap"] = 2 * cf["mtu"]
        room = cf["mtu"] - over(procs)
        sess = g.sessions(3)
        ops = start(g, procs, sess, 2)
        for _ in range(r.choice([3, 10, 25])):
            m = g.msg(codec, room)
            ops.append(dict(o="send", e=r.choice([1, 2, 3]), c=r.choice([0, 1, 1, 1, 2, 2]), m=m,
                            d=s4(r.choice(SESS)) if r.random() < .3 else [], clr=r.random() < .3))
            if r.random() < .03:
                ops.append(dict(o="close", c=2))
            if r.random() < .3:
                ops.append(dict(o="back", c=1, e=1, b=[r.choice([1, 3, 50, 3000]) if cf["mtu"] < 3000 else 30000], d=[]))
        out.append(dict(cfg=cf, ops=ops))
    return out


def routing(c, n):
    """C09: sessions over the whole range, endpoints added and removed"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        with_session = r.random() < .8
        codec, procs = g.pipeline(codecs=["bytes", "string", "generic", "json"], frame=r.random() < .5,
                                  below=(("session",) if with_session else ()) + ("stat", "hb"))
        if with_session and "session" not in procs:
            procs.insert(1, "session")
        cf = g.cfg(procs, 2, 6)
        pool = g.sessions(4)
        if not with_session:
            pool[0] = 0
        ops, act, reg, mine = [], {}, set(), {}

        def add(e, s):
            s = mine.setdefault(e, s)
            if e not in reg:
                reg.add(e)
                act.setdefault(s, e)
            ops.append(dict(o="addep", e=e, s=s4(s)))
        for e in range(1, 7):
            add(e, r.choice(pool))
        ops += [dict(o="open", c=1, ref=False), dict(o="open", c=2, ref=False)]
        for _ in range(r.choice([10, 30])):
            x = r.random()
            if x < .5:
                pay = self_payload(g, codec) if codec == "json" else g.data(r.randrange(1, 9))
                ops.append(dict(o="read", c=r.choice([1, 2]), b=g.encode(procs, pay, r.choice(pool + [r.choice(SESS)]))))
            elif x < .75:
                if not act:
                    continue
                ops.append(dict(o="send", e=r.choice(list(act.values())), c=r.choice([1, 2]), m=dict(k="bytes", b=g.data(4)),
                                d=s4(r.choice(SESS)) if r.random() < .4 else [], clr=r.random() < .3))
            elif x < .9:
                e = r.randrange(1, 7)
                reg.discard(e)
                if act.get(mine[e]) == e:
                    del act[mine[e]]
                ops.append(dict(o="delep", e=e))
            else:
                add(r.randrange(1, 7), 0)
        out.append(dict(cfg=cf, ops=ops, run=0 if r.random() < .6 else 6))
    return out


def statistics(c, n):
    """C15 with one thing at a time"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        codec, procs = g.pipeline(codecs=["bytes", "generic", "raw"], frame=r.random() < .5, below=("session", "hb", "flow"))
        for _ in range(r.choice([1, 1, 2])):
            procs.insert(r.randrange(1, len(procs) + (0 if procs[-1] == "frame" else 1)), "stat")
        at = [i + 1 for i, k in enumerate(procs) if k == "stat"]
        cf = g.cfg(procs, 3, 2)
        sess = g.sessions(2)
        if "session" not in procs:
            sess[0] = 0
        ops = start(g, procs, sess, 3)
        for _ in range(r.choice([5, 20, 40])):
            x = r.random()
            if x < .3:
                ops.append(dict(o="send", e=r.choice([1, 2]), c=r.choice([0, 1, 2, 3]), m=g.msg(codec, 20), d=[]))
            elif x < .6:
                pay = g.data(r.randrange(0, 9))
                ops.append(dict(o="read", c=r.choice([1, 2, 3]), b=g.encode(procs, pay, r.choice(sess + [77]))))
            elif x < .8:
                p = r.choice(at)
                tag = r.choice([0x10, 0x10, 0x10, 0x23, 0x83, 0x01])
                ops.append(dict(o="read", c=r.choice([1, 2, 3]), b=g.control(procs, p, [tag] + ([] if r.random() < .7 else g.data(3)))))
            elif x < .9:
                ops.append(dict(o="enable", p=r.choice(at), on=r.random() < .6))
            elif x < .95:
                ops.append(dict(o="back", c=1, e=2, b=[], d=[]))
            else:
                ops.append(dict(o="close", c=3))
        p = r.choice(at)
        ops.append(dict(o="enable", p=p, on=True))
        if r.random() < .03:  # more of them than a byte counts
            for _ in range(300):
                ops.append(dict(o="send", e=1, c=2, m=g.msg(codec, 3), d=[]) if r.random() < .1 + .8 * (len(out) % 2)
                           else dict(o="read", c=2, b=g.encode(procs, g.data(3), sess[0])))
        ops.append(dict(o="read", c=1, b=g.control(procs, p, [0x10])))
        out.append(dict(cfg=cf, ops=ops))
    return out


def predicates(c, n):
    """C16: filters and forwarders everywhere in the pipeline"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        extra = [r.choice(["filter", "fwd"]) for _ in range(r.choice([1, 1, 2, 3]))]
        codec, procs = g.pipeline(codecs=["bytes", "string", "generic"], frame=r.random() < .4, extra=extra)
        at = [i + 1 for i, k in enumerate(procs) if k in ("filter", "fwd")]
        cf = g.cfg(procs, 2, 2)
        sess = g.sessions(2)
        ops = start(g, procs, sess, 2)
        if "hb" in procs:  # the first heartbeat asks predicates below as well
            ops = [o for o in ops if o["o"] != "open"]
            procs2 = [("flow" if k == "hb" else k) for k in procs]
            for i, k in enumerate(procs2):
                cf["procs"][i]["k"] = k
            procs = procs2
            ops += [dict(o="open", c=1, ref=False), dict(o="open", c=2, ref=False)]
        for _ in range(r.choice([6, 15])):
            f = dict(fup=g.answers(yes=.4), fdn=g.answers(yes=.4))
            x = r.random()
            if x < .45:
                ops.append(dict(o="send", e=r.choice([1, 2]), c=r.choice([0, 1, 2]), m=g.msg(codec, 20), d=[], **f))
            elif x < .9:
                b = g.encode(procs, g.data(r.randrange(1, 9)), r.choice(sess))
                if r.random() < .2:
                    b = b + g.encode(procs, g.data(r.randrange(1, 9)), r.choice(sess))
                ops.append(dict(o="read", c=r.choice([1, 2]), b=b, **f))
            else:
                ops.append(dict(o="enable", p=r.choice(at), on=r.random() < .5))
        out.append(dict(cfg=cf, ops=ops))
    return out


def switching(c, n):
    """C17: every processor switched on and off between messages"""
    g, r = Gen(c.rng), c.rng
    out = []
    kinds = ["echo", "discard", "loop", "flow", "session", "stat", "lb", "frame", "filter", "fwd"]
    for _ in range(n):
        extra = [r.choice(["echo", "discard", "loop", "flow", "filter", "fwd"]) for _ in range(r.choice([1, 1, 2]))]
        if "echo" in extra and "loop" in extra:  # for ever
            extra = extra[:1]
        codec, procs = g.pipeline(codecs=["bytes", "string", "generic", "raw"], frame=r.random() < .5,
                                  below=("session", "stat", "lb"), extra=extra)
        if "frame" in procs and r.random() < .2:  # not only at the bottom
            procs.remove("frame")
            procs.insert(r.randrange(procs.index(codec) + 1, len(procs) + 1), "frame")
        cf = g.cfg(procs, 2, 2)
        sess = g.sessions(2)
        if r.random() < .5:
            sess[0] = 0
        if len(set(sess)) < 2:
            sess[1] = 5
        en = [True] * len(procs)
        ops = start(g, procs, sess, 2)
        for i, k in enumerate(procs):
            if k == "lb":
                en[i] = False
        if r.random() < .5:  # most special processors off to begin with
            for i, k in enumerate(procs):
                if k in ("echo", "discard", "loop") and r.random() < .7:
                    en[i] = False
                    ops.append(dict(o="enable", p=i + 1, on=False))
        loop = "loop" in procs
        for _ in range(r.choice([8, 20])):
            f = dict(fup=g.answers(yes=.5), fdn=g.answers(yes=.5))
            x = r.random()
            if x < .35:
                ops.append(dict(o="send", e=r.choice([1, 2]), c=r.choice([0, 1, 2, 1]), m=g.msg(codec, 20), d=[], **f))
            elif x < .7:
                tagged = [i + 1 for i, k in enumerate(procs) if k in ("stat", "lb")]
                tags = {p: r.choice([0x10, 0x23, 0x83, 0xff, 0x11, 0x19, 0x82, 0x08]) for p in tagged if r.random() < .3}
                b = g.encode(procs, g.data(r.choice([0, 1, 2, 5, 8])), r.choice(sess), en, tags=tags)
                if "frame" in procs and en[procs.index("frame")] and r.random() < .2:
                    b = b + g.encode(procs, g.data(r.randrange(1, 9)), r.choice(sess), en)
                ops.append(dict(o="read", c=r.choice([1, 2]), b=b, **f))
            else:
                p = r.randrange(1, len(procs) + 1)
                if procs[p - 1] == "lb":
                    continue
                en[p - 1] = r.random() < .5
                ops.append(dict(o="enable", p=p, on=en[p - 1]))
        out.append(dict(cfg=cf, ops=ops))
    return out


def references(c, n):
    """C18: pipelines over connections that carry references"""
    g, r = Gen(c.rng), c.rng
    out = []
    for _ in range(n):
        procs = [k for k in ("stat", "hb", "lb", "frame", "flow", "stat") if r.random() < .5]
        r.shuffle(procs)
        cf = g.cfg(procs, 3, 1)
        ops = [dict(o="addep", e=1, s=s4(0)), dict(o="open", c=1, ref=True), dict(o="open", c=2, ref=True)]
        ops += g.off_lb(procs) if r.random() < .5 else []
        for _ in range(r.choice([5, 15])):
            k = r.choice(["bytes", "string", "objp", "obj"])
            m = dict(k=k, b=g.jobj() if k.startswith("obj") else [x & 127 for x in g.data(r.randrange(0, 9))])
            x = r.random()
            if x < .4:
                ops.append(dict(o="send", e=1, c=r.choice([1, 2]), m=m, d=[]))
            elif x < .8:
                ops.append(dict(o="readref", c=r.choice([1, 2]), m=m))
            elif procs:
                ops.append(dict(o="enable", p=r.randrange(1, len(procs) + 1), on=r.random() < .5))
        out.append(dict(cfg=cf, ops=ops))
    return out
