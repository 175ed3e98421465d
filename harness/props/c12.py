"""C12: key derivation against RFC 3414 A.2 computed with hashlib; keys actually used by sessions; refusals."""
from core import *
from agent import AK, PK, KTE
from gufo.snmp.user import User, Md5Key, Sha1Key, DesKey, Aes128Key, KeyType

KS = {"md5": 16, "sha1": 20}
LENS = [1, 2, 3, 5, 7, 8, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 65535, 65536, 65537,
        2 ** 19, 2 ** 19 + 1, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 20 + 77, 2 ** 21, 3 * 2 ** 20 + 5]


def gen(ctx):
    r = ctx.rng
    for a in KS:
        for n in LENS:
            yield "master", {"alg": a, "n": n, "seed": n}
        for n in range(0, 65):
            yield "local", {"alg": a, "engine": bytes((i * 37 + n) & 255 for i in range(n)), "seed": n}
            yield "bad_local", {"alg": a, "n": n}
        for kt in KT:
            for n in range(0, 65):
                for priv in (0, 1, 2):
                    yield "sizes", {"alg": a, "kt": kt, "n": n, "priv": priv, "where": n % 2}
    for code in range(256):
        yield "code", {"code": code, "priv": 0}
        yield "code", {"code": code, "priv": 1}
    yield "empty", {}
    for a in KS:
        for p in (None, "des", "aes"):
            for kt in KT:
                for pkt in KT:
                    for how in (0, 1, 2, 3):
                        for n in (0, 5, 12, 32):
                            yield "session", {"alg": a, "priv": p, "kt": kt, "pkt": pkt, "how": how, "engine": bytes(range(1, n + 1)),
                                              "apw": b"authpassw0rd", "ppw": b"privpassw0rd"}

    def rnd():
        while True:
            a = r.choice(["md5", "sha1"])
            k = r.random()
            if k < .3:
                yield "master", {"alg": a, "n": r.choice([r.randrange(1, 300), r.randrange(1, 2 ** r.randrange(1, 22))]), "seed": r.randrange(2 ** 32)}
            elif k < .5:
                yield "local", {"alg": a, "engine": r.randbytes(r.randrange(0, 65)), "seed": r.randrange(2 ** 32)}
            else:
                yield "session", {"alg": a, "priv": r.choice([None, "des", "aes"]), "kt": r.choice(list(KT)), "pkt": r.choice(list(KT)), "how": r.randrange(4),
                                  "engine": r.randbytes(r.randrange(0, 33)), "apw": r.randbytes(r.choice([1, 2, 7, 8, 16, 20, 64, 100, 300])),
                                  "ppw": r.randbytes(r.choice([1, 2, 7, 8, 16, 20, 64, 100, 300]))}
    yield from ctx.spread([rnd()])


def pw(n, seed):
    return random.Random(seed).randbytes(n)


def ok_bytes(r, exp, what):
    if r[0] != "ok" or bytes(r[1]) != exp:
        raise Fail(f"{what} {r[1].hex() if r[0] == 'ok' else show(r)}, expected {exp.hex()}")


def refused(r, what):
    if r[0] == "ok":
        raise Fail(f"{what}: accepted")
    if is_panic(r[1]):
        raise Fail(f"{what}: {show(r)}")


def run(kind, c):
    if kind == "master":
        p = pw(c["n"], c["seed"])
        exp = B.password_to_key(c["alg"], p)
        w = f"{c['alg']}: master key of a password of {c['n']} octets (seed {c['seed']})"
        ok_bytes(call(fast.get_master_key, B.ALG[c["alg"]], p), exp, w)
        ok_bytes(call(AK[c["alg"]].get_master_key, p), exp, w)
        return
    if kind == "local":
        k = pw(KS[c["alg"]], c["seed"])
        exp = B.localize(c["alg"], k, c["engine"])
        w = f"{c['alg']}: master key {k.hex()} localized to {c['engine'].hex()}"
        ok_bytes(call(fast.get_localized_key, B.ALG[c["alg"]], k, c["engine"]), exp, w)
        ok_bytes(call(AK[c["alg"]].get_localized_key, k, c["engine"]), exp, w)
        return
    if kind == "bad_local":
        r = call(fast.get_localized_key, B.ALG[c["alg"]], bytes(c["n"]), ENGINE)
        if c["n"] == KS[c["alg"]]:
            ok_bytes(r, B.localize(c["alg"], bytes(c["n"]), ENGINE), "localized key of zeroes")
        else:
            refused(r, f"{c['alg']}: get_localized_key with a master key of {c['n']} octets")
        return
    if kind == "empty":
        for a in (0, 1, 2):
            r = call(fast.get_master_key, a, b"")
            refused(r, f"get_master_key({a}, b'')")
        return
    if kind == "code":
        code = c["code"]
        alg = code & 0x3F
        t = code & 0xC0
        if not c["priv"]:
            for f, a in ((fast.get_master_key, (code, b"secret")), (fast.get_localized_key, (code, bytes(16 if alg == 1 else 20), ENGINE))):
                r = call(f, *a)
                if alg in (1, 2):
                    name = {1: "md5", 2: "sha1"}[alg]
                    if r[0] == "ok" or not t:
                        exp = B.password_to_key(name, b"secret") if f is fast.get_master_key else B.localize(name, a[1], ENGINE)
                        ok_bytes(r, exp, f"{f.__name__}({code}, ..)")
                    else:
                        refused(r, f.__name__)
                elif alg == 0:
                    if r[0] == "exc":
                        refused(r, f.__name__)
                else:
                    refused(r, f"{f.__name__} with algorithm code {code}")
        aa, ak, pa, pk = (code, bytes(16 if alg == 1 else 20), 0, b"") if not c["priv"] else (2, b"secret", code, bytes(20))
        r = call(SnmpV3ClientSocket, "127.0.0.1:9", ENGINE, "user", aa, ak, pa, pk, 0, 0, 0, 0)
        if alg > 2 or (t == 0xC0 and alg):
            refused(r, f"session with {'privacy' if c['priv'] else 'authentication'} code {code:#x}")
        elif r[0] == "exc":
            raise Fail(f"session with {'privacy' if c['priv'] else 'authentication'} code {code:#x} {show(r)}")
        return
    if kind == "sizes":
        return sizes(c)
    session(c)


def sizes(c):
    """key material of n octets for the authentication or the privacy key"""
    a, n, kt = c["alg"], c["n"], c["kt"]
    key = bytes((i + 1) & 255 for i in range(n))
    good = mkey(a, b"authpassw0rd")
    w = f"{a}: {'privacy' if c['priv'] else 'authentication'} {kt} key of {n} octets"
    if c["priv"]:
        args = (B.ALG[a] | 0x40, good, c["priv"] | KT[kt], key)
    else:
        args = (B.ALG[a] | KT[kt], key, 0, b"")
    if c["where"]:
        r = call(SnmpV3ClientSocket, "127.0.0.1:9", ENGINE, "user", *args, 0, 0, 0, 0)
    else:
        s = SnmpV3ClientSocket("127.0.0.1:9", ENGINE, "", 0, b"", 0, b"", 0, 0, 0, 0)
        r = call(s.set_keys, "user", *args)
    if n == 0 if kt == "password" else n != KS[a]:
        refused(r, w)
    elif r[0] == "exc":
        raise Fail(f"{w}: {show(r)}")


def session(c):
    """the keys a session uses"""
    cfg = Cfg(3, c["alg"], c["priv"], c["kt"], c["pkt"], c["engine"], apw=c["apw"], ppw=c["ppw"])
    S = Session(Cfg(3, engine=c["engine"]))
    try:
        a, kul = cfg.material(c["alg"], c["kt"], c["apw"], c["engine"])
        p, pkul = cfg.material(c["alg"], c["pkt"], c["ppw"], c["engine"]) if c["priv"] else (b"", None)
        aa, pa = B.ALG[c["alg"]] | KT[c["kt"]], (PRIV[c["priv"]] | KT[c["pkt"]] if c["priv"] else 0)
        if c["how"] == 2:           # through the documented classes
            u = User(cfg.user, auth_key=AK[c["alg"]](a, key_type=KTE[c["kt"]]),
                     priv_key=PK[c["priv"]](p, key_type=KTE[c["pkt"]]) if c["priv"] else None)
            if (u.get_auth_alg(), u.get_auth_key(), u.get_priv_alg(), u.get_priv_key()) != (aa, a, pa, p):
                raise Fail(f"User: {u.get_auth_alg()}, {u.get_auth_key()!r}, {u.get_priv_alg()}, {u.get_priv_key()!r}, expected {(aa, a, pa, p)}")
            aa, a, pa, p = u.get_auth_alg(), u.get_auth_key(), u.get_priv_alg(), u.get_priv_key()
        if c["how"] == 3:           # the same user had other keys before
            for old in (b"0ld" + c["apw"], c["apw"] + b"x"):
                x = call(S.s.set_keys, cfg.user, B.ALG[c["alg"]], old, PRIV[c["priv"]] if c["priv"] else 0, old if c["priv"] else b"")
                if x[0] != "ok":
                    raise Fail(f"valid keys refused: {show(x)}")
        if c["how"] in (1, 3):
            x = call(S.s.set_keys, cfg.user, aa, a, pa, p)
        else:
            x = call(SnmpV3ClientSocket, "127.0.0.1:%d" % S.ag.getsockname()[1], c["engine"], cfg.user, aa, a, pa, p, 0, 0, 0, 0)
            if x[0] == "ok":
                S.s = x[1]
        if x[0] != "ok":
            raise Fail(f"valid keys refused: {show(x)}")
        S.cfg, S.kul, S.pkul = cfg, kul, pkul
        w = f"{cfg.name()} auth {c['kt']} priv {c['pkt']} engine {c['engine'].hex()}"
        S.send_op("get", "1.3.6.1.2")
        raw = S.raw()
        if raw is None:
            raise Fail(f"{w}: nothing was sent")
        try:
            d = B.dec_msg(raw)
        except B.BerError as e:
            raise Fail(f"{w}: {e}")
        if not B.mac_ok(c["alg"], kul, raw, d):
            raise Fail(f"{w}: signature is not made with the localized key {kul.hex()}")
        if c["priv"]:
            d = S.decode(raw)
            expect_request(cfg, d, "get", ["1.3.6.1.2"])
        S.put(S.response({**d, "id": d["id"]}, [B.varbind("1.3.6.1.2", v_enc(["int", 5]))]))
        x = call(S.recv_op, "get")
        if x[0] != "ok" or x[1] != 5:
            raise Fail(f"{w}: reply made with the RFC 3414 keys: {show(x)}")
    finally:
        S.close()
