"""C09: HMAC of every emitted message, over random histories, keys and sessions."""
from core import *
import v3hist


def gen(ctx):
    r = ctx.rng
    for kt in KT:
        for a in ("md5", "sha1"):
            for p in (None, "des", "aes"):
                yield "history", {"cfg": Cfg(3, a, p, kt).case(), "seed": 1, "n": 6}

    def hist():
        while True:
            a = r.choice(["md5", "sha1"])
            yield "history", {"cfg": v3hist.cfg_of(r, a, r.choice([None, None, "aes", "des"])).case(), "seed": r.randrange(2 ** 60), "n": 12}

    def none():
        while True:
            yield "history", {"cfg": v3hist.cfg_of(r).case(), "seed": r.randrange(2 ** 60), "n": 12}

    def rekey():
        while True:
            yield "rekey", {"seed": r.randrange(2 ** 60)}
    for mode in ("sync", "async"):
        for a in ("md5", "sha1"):
            for p in (None, "des", "aes"):
                for kt in KT:
                    yield "api", {"cfg": Cfg(3, a, p, kt).case(), "mode": mode, "known": kt != "localized" or p == "des"}
    yield from ctx.spread([hist(), hist(), none(), rekey()])


def verify(S, raw, d):
    c = S.cfg
    if d["version"] != 3:
        raise Fail("not a v3 message")
    if not c.auth:
        if d["auth"] or d["flags"] & 1:
            raise Fail(f"without a key: auth parameters {d['auth'].hex()}, flags {d['flags']}")
        return
    if not d["flags"] & 1:
        raise Fail(f"auth flag is clear (flags {d['flags']})")
    if len(d["auth"]) != 12:
        raise Fail(f"authentication parameters have {len(d['auth'])} octets")
    kul = B.localize(c.auth, mkey(c.auth, c.apw), d["engine"])
    if B.sign(c.auth, kul, raw, d["auth_off"]) != raw:
        raise Fail(f"{c.name()} ({c.kt}): wrong authentication parameters {d['auth'].hex()} in {raw.hex()}, "
                   f"expected {B.hmac96(c.auth, kul, raw[:d['auth_off']] + bytes(12) + raw[d['auth_off'] + 12:]).hex()}")


def check(S, raw, op, oids, mr, boots, tm):
    try:
        d = B.dec_msg(raw)
    except (B.BerError, IndexError) as e:
        raise Fail(f"emitted message does not decode: {e}: {raw.hex()}")
    d["raw"] = raw
    verify(S, raw, d)
    if "enc" in d:
        d = S.decode(raw)
    return d


def run(kind, c):
    if kind == "history":
        return v3hist.history(c["cfg"], c["seed"], c["n"], check)
    if kind == "rekey":
        r = random.Random(c["seed"])
        cfg = v3hist.cfg_of(r, r.choice(["md5", "sha1"]), r.choice([None, "aes"]))
        S = Session(cfg)
        try:
            for _ in range(6):
                S.send_op("get", rnd_oid(r))
                check(S, S.raw(), "get", None, None, 0, 0)
                n = v3hist.cfg_of(r, r.choice([None, "md5", "sha1"]), None)
                if n.auth and r.random() < .5:
                    n.priv = r.choice(["des", "aes"])
                n.engine = S.cfg.engine
                S.cfg = n
                S.kul = S.pkul = None
                a = p = b""
                aa = pa = 0
                if n.auth:
                    a, S.kul = n.material(n.auth, n.kt, n.apw, n.engine)
                    aa = B.ALG[n.auth] | KT[n.kt]
                if n.priv:
                    p, S.pkul = n.material(n.auth, n.pkt, n.ppw, n.engine)
                    pa = PRIV[n.priv] | KT[n.pkt]
                S.s.set_keys(n.user, aa, a, pa, p)
            S.send_op("get", rnd_oid(r))
            check(S, S.raw(), "get", None, None, 0, 0)
        finally:
            S.close()
        return
    import agent as A
    mib = A.Mib([("1.3.6.1.5.1", ["int", 5]), ("1.3.6.1.5.2", ["int", 6])])
    cfg = Cfg.of(c["cfg"])
    with A.Agent(cfg, mib) as ag:
        def go(api):
            if api.get("1.3.6.1.5.1") != 5:
                raise Fail("get")
            api.walk("getbulk", "1.3.6.1.5")
            api.get_many(["1.3.6.1.5.1"])
            api.refresh()
        x = call(A.drive, c["mode"], ag.port, cfg, go, c["known"])
    if ag.errors:
        raise Fail(ag.errors[0])
    seen = 0
    for d in ag.log:
        if d["user"]:
            seen += 1
            verify(ag.S, d["raw"], d)
        elif d["flags"] & 3 or d["auth"]:
            raise Fail(f"discovery message: flags {d['flags']}, auth {d['auth'].hex()}")
    if x[0] != "ok":
        raise Fail(f"{cfg.name()} {c['mode']} session {show(x)}")
    if not seen:
        raise Fail("no authenticated message was sent")
