"""C14: salts over histories; nothing of the scoped PDU outside the ciphertext."""
from core import *
import v3hist
from props import c11


# the initial counter is random, so any of these is as likely as any other: low-order octets about to carry, and the wrap
WRAP = [-3, 0xFD, 0xFFFD, 0xFFFFFD, 0x7FFFFFFD, 0xFFFFFFFD, 0xFFFFFFFFFFFD, (1 << 63) - 3]


def force(obj, old, new, size):
    """overwrite the one place of our own object which holds the counter -> found"""
    import ctypes
    n = type(obj).__basicsize__
    mem = ctypes.string_at(id(obj), n)
    pat = old.to_bytes(size, "little")
    i = mem.find(pat)
    if i < 0 or mem.find(pat, i + 1) >= 0:
        return False
    ctypes.memmove(id(obj) + i, new.to_bytes(size, "little"), size)
    return True


def gen(ctx):
    r = ctx.rng
    for a in ("md5", "sha1"):
        for p in ("des", "aes"):
            yield "salts", {"cfg": Cfg(3, a, p, "localized").case(), "n": 300}
            for v in WRAP:
                yield "wrap", {"cfg": Cfg(3, a, p, "localized").case(), "start": v, "n": 8}

    def hist():
        while True:
            yield "history", {"cfg": v3hist.cfg_of(r, r.choice(["md5", "sha1"]), r.choice(["des", "aes"])).case(), "seed": r.randrange(2 ** 60), "n": 14}
    for mode in ("sync", "async"):
        for p in ("des", "aes"):
            for known in (True, False):
                yield "api", {"cfg": Cfg(3, "md5", p, "password").case(), "mode": mode, "known": known}
    yield from ctx.spread([hist()])


class Watch:
    def __init__(self, cfg):
        self.cfg = Cfg.of(cfg)
        self.seen, self.prev = {}, None

    def __call__(self, raw, d, secrets):
        c = self.cfg
        if d["flags"] & 2 == 0:
            raise Fail(f"priv flag is clear: {raw.hex()}")
        s = d["priv"]
        if len(s) != 8:
            raise Fail(f"privacy parameters have {len(s)} octets")
        if s in self.seen:
            raise Fail(f"salt {s.hex()} is used by message {self.seen[s]} and message {len(self.seen)}")
        self.seen[s] = len(self.seen)
        if c.priv == "des":
            if s[:4] != (d["boots"] & 0xFFFFFFFF).to_bytes(4, "big"):
                raise Fail(f"DES salt {s.hex()} does not start with engine boots {d['boots']}")
            n, w = int.from_bytes(s[4:], "big"), 1 << 32
        else:
            n, w = int.from_bytes(s, "big"), 1 << 64
        if self.prev is not None and not 1 <= (n - self.prev) % w <= 1 + self.slack:
            raise Fail(f"salt counter goes from {self.prev:#x} to {n:#x}")
        self.prev = n
        if "enc" not in d:
            raise Fail(f"msgData is in clear: {raw.hex()}")
        i = raw.rindex(d["enc"])
        out = raw[:i] + b"|" + raw[i + len(d["enc"]):]
        for x in secrets:
            if len(x) >= 5 and x in out:
                raise Fail(f"{x.hex()} appears in clear in {raw.hex()}")
            if len(x) >= 5 and x in d["enc"]:
                raise Fail(f"{x.hex()} appears in the ciphertext of {raw.hex()}")

    slack = 0


def run(kind, c):
    cfg = Cfg.of(c["cfg"])
    w = Watch(cfg)
    if kind == "salts":
        S = Session(cfg)
        try:
            for i in range(c["n"]):
                o = B.oid_content([1, 3, 6, 1, 4, 1, 4294967295 - i, i])
                S.send_op("get", B.dots(B.dec_oid(o)))
                raw = S.raw()
                d = B.dec_msg(raw)
                w(raw, d, [o])
        finally:
            S.close()
        return
    if kind == "wrap":
        S = Session(cfg)
        try:
            size = 4 if cfg.priv == "des" else 8
            w_ = 1 << 8 * size
            for i in range(c["n"]):
                o = B.oid_content([1, 3, 6, 1, 4, 1, 4294967295 - i, i])
                S.send_op("get", B.dots(B.dec_oid(o)))
                raw = S.raw()
                if raw is None:
                    raise Fail("nothing was sent")
                w(raw, B.dec_msg(raw), [o])
                if i == 0:
                    if not force(S.s, (w.prev + 1) % w_, c["start"] % w_, size):
                        return      # the counter is kept in another way
                    w.prev = None
        finally:
            S.close()
        return
    if kind == "history":
        def check(S, raw, op, oids, mr, boots, tm):
            try:
                d = B.dec_msg(raw)
            except (B.BerError, IndexError) as e:
                raise Fail(f"emitted message does not decode: {e}: {raw.hex()}")
            d["raw"] = raw
            # an operation which fails to encode may consume a salt
            w.slack = 1
            if w.cfg is not S.cfg:
                w.cfg, w.prev = S.cfg, None     # other keys, another sequence
            w(raw, d, [B.oid_content(B.arcs_of(o)) for o in oids or []] + [B.tlv(4, S.cfg.engine) + b"\x04\x00"])
            return c11.check(S, raw, None, None, None, boots, tm)
        return v3hist.history(cfg, c["seed"], c["n"], check)
    import agent as A
    mib = A.Mib([("1.3.6.1.5.1.%d" % i, ["int", i]) for i in range(6)])
    with A.Agent(cfg, mib) as ag:
        x = call(A.drive, c["mode"], ag.port, cfg, lambda api: (api.walk("getnext", "1.3.6.1.5"), api.get("1.3.6.1.5.1.2"), api.get_many(["1.3.6.1.5.1.3"])), c["known"])
    if ag.errors:
        raise Fail(ag.errors[0])
    if x[0] != "ok":
        raise Fail(f"session {show(x)}")
    n = 0
    for d in ag.log:
        if d["user"]:
            n += 1
            w(d["raw"], d, [B.oid_content(B.arcs_of(v[0])) for v in d["vars"]])
    if not n:
        raise Fail("nothing was encrypted")
