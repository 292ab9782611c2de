"""Stimuli for the stack driver. Nothing here decides anything: whatever is
generated, the recorded run is judged by Stack.tla."""
import json

SPECIAL = [0x00, 0x10, 0x23, 0x83, 0xff, 0x7e, 0x01, 0x19, 0x82, 0x11, 0x08, 0x04, 0x80]
SESS = [0, 1, 2, 255, 256, 65535, 65536, 0x10000001, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 0x83102300, 5]
OVER = dict(session=4, frame=4, stat=1, hb=1, lb=1)
BYTE = ["session", "stat", "hb", "lb", "frame"]


def s4(n):
    return list(n.to_bytes(4, "big"))


def over(procs):
    return sum(OVER.get(k, 0) for k in procs)


class Gen:
    def __init__(self, rng):
        self.r = rng

    def data(self, n):
        r = self.r
        m = r.randrange(4)
        if m == 0:
            return [r.choice(SPECIAL) for _ in range(n)]
        if m == 1:
            return [r.randrange(256) for _ in range(n)]
        if m == 2:
            return [r.randrange(97, 123) for _ in range(n)]
        b = [r.randrange(256) for _ in range(n)]
        if b:
            b[0] = r.choice(SPECIAL)
        return b

    def size(self, room):
        """a payload size, boundaries preferred"""
        r = self.r
        c = [1, 1, 2, 3, 4, 5, 8, r.randrange(1, 40), room, room - 1, room // 2, r.randrange(1, max(2, room + 1))]
        return max(0, min(room, r.choice(c)))

    # encoding of one payload as a peer with the same pipeline would do it
    def encode(self, procs, payload, session, en=None, codec=True, tags=None):
        b = list(payload)
        for i, k in enumerate(procs):
            on = en is None or en[i]
            if k == "generic" and codec and on:
                b = [126] + [255 - x for x in b]
            elif k == "session" and on:
                b = s4(session) + b
            elif k in ("stat", "hb", "lb"):
                b = [tags.get(i + 1, 0) if tags else 0] + b
            elif k == "frame" and on:
                b = s4(len(b)) + b
        return b

    def control(self, procs, p, body, en=None):
        """a control message of the processor at 1-based position p"""
        return self.encode(procs[p:], body, 0, en[p:] if en else None, codec=False)

    def jobj(self):
        r = self.r
        o = dict(N=r.choice([0, 1, -1, r.randrange(1 << 31)]),
                 S="".join(r.choice("abc\u00e9\"{}[]0,") for _ in range(r.randrange(12))), B=None)
        if r.random() < .4:
            o["M"] = {"k": r.randrange(9)}
        return list(json.dumps(o).encode())

    def payload(self, codec, room):
        r = self.r
        if codec == "json":
            m = r.randrange(5)
            if m < 3:
                return self.jobj()
            if m == 3:
                b = self.jobj()
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                return b
        if codec == "raw" and r.random() < .3:
            return []
        return self.data(self.size(room))

    def msg(self, codec, room):
        r = self.r
        x = r.random()
        if x < .03:
            return dict(k="none", b=[])
        if x < .06:
            return dict(k="int", b=[])
        if codec in ("json", "gob", "ggob"):
            if x < .1:
                return dict(k="chan", b=[])
            if x < .25:
                return dict(k=r.choice(["bytes", "string"]), b=[r.randrange(97, 123) for _ in range(self.size(room + 8))])
            return dict(k=r.choice(["obj", "objp"]), b=self.jobj())
        k = "string" if codec == "string" else "bytes"
        if x < .1:
            k = "string" if k == "bytes" else "bytes"
        b = self.data(self.size(room)) if r.random() < .8 else self.data(room + r.choice([0, 1, 1, 2, 3, 4, 5, 9, 50]))
        if k == "string":
            b = [x & 0x7f for x in b]
        return dict(k=k, b=b)

    def cuts(self, data):
        r = self.r
        out, at = [], 0
        mode = r.randrange(5)
        while at < len(data):
            if mode == 0:
                n = 1
            elif mode == 1:
                n = r.randrange(1, 6)
            elif mode == 2:
                n = r.randrange(1, 40)
            elif mode == 3:
                n = len(data)
            else:
                n = r.choice([1, 2, 3, 4, 5, 7, 16, 64, 300])
            out.append(data[at:at + n])
            at += n
        return out

    def pipeline(self, codecs=("bytes", "string", "raw", "generic", "json", "gob", "ggob"), frame=True, extra=(), shuffle=True,
                 below=("session", "stat", "hb", "lb", "flow")):
        r = self.r
        lower = [k for k in below if r.random() < .5]
        if shuffle:
            r.shuffle(lower)
        codec = r.choice(list(codecs))
        procs = [codec] + lower
        if frame:
            procs.append("frame")
        for k in extra:
            procs.insert(r.randrange(0, len(procs) + 1), k)
        return codec, procs

    def cfg(self, procs, conns, eps, mtu=None, cap=None, preds=3, name=None):
        r = self.r
        if name is None:
            name = r.choice([b"UStack", b"x", b"", b"peer-1"])
        ov = over(procs)
        least = ov + 20 + len(name)
        if mtu is None:
            mtu = r.choice([least, least + r.randrange(1, 60), 64 + ov, 128, 256, 300, 2048])
            mtu = max(mtu, least)
        d = dict(mtu=mtu, cap=cap if cap is not None else 2 * mtu, capop=cap is not None, name=list(name),
                 procs=[dict(k=k, n=(r.randrange(0, preds + 1) if k in ("filter", "fwd") else 0)) for k in procs],
                 conns=conns, eps=eps, enc=[])
        return d

    def off_lb(self, procs):
        return [dict(o="enable", p=i + 1, on=False) for i, k in enumerate(procs) if k == "lb"]

    def sessions(self, n):
        return self.r.sample(SESS, n)

    def answers(self, n=3, yes=.6):
        return [self.r.random() < yes for _ in range(n)]
