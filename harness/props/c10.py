"""C10: forged and altered replies to a session with an authentication key."""
from core import *

KINDS = ["zero-mac", "no-mac", "no-mac-flag", "flag-clear", "flag-clear-mac", "wrong-key", "master-key", "other-alg", "mac-11", "mac-13", "mac-16", "mac-20", "mac-bit", "mac-byte0", "mac-last",
         "mac-trunc8", "mac-doubled", "replay-mac", "over-nonzero", "swap-params", "user-key-of-priv", "zero-key", "mac-nested"]
PRIVKINDS = ["clear-signed", "clear-noflag", "clear-unsigned", "clear-flagged", "clear-zero-mac", "enc-flag-clear"]


def gen(ctx):
    r = ctx.rng
    for cfg in AUTH + PRIVS:
        for k in KINDS + (PRIVKINDS if cfg.priv else []):
            for op in OPS:
                yield "forged", {"cfg": cfg.case(), "op": op, "kind": k, "seed": 1}
        for op in OPS:
            yield "report", {"cfg": cfg.case(), "op": op}
    def bits():
        while True:
            yield "bits", {"cfg": r.choice(AUTH + PRIVS).case(), "op": r.choice(OPS), "seed": r.randrange(2 ** 60)}

    def forged():
        while True:
            cfg = r.choice(AUTH + PRIVS)
            cfg = Cfg(3, cfg.auth, cfg.priv, r.choice(list(KT)), r.choice(list(KT)), r.choice([ENGINE, r.randbytes(5), r.randbytes(32)]), r.choice(["u5er", "a", "x" * 32]))
            yield "forged", {"cfg": cfg.case(), "op": r.choice(OPS), "kind": r.choice(KINDS + (PRIVKINDS if cfg.priv else [])), "seed": r.randrange(2 ** 60)}
    yield from ctx.spread([bits(), forged()])


def ask(S, op):
    it = None
    arg = "1.3.6.1.5"
    if op == "get_many":
        arg = ["1.3.6.1.5"]
    elif op in ("get_next", "get_bulk"):
        arg = it = GetIter("1.3.6.1.5", 3)
    S.send_op(op, arg)
    return S.read(), it


def forge(S, q, k, r):
    c = S.cfg
    vb = [B.varbind("1.3.6.1.5.1", v_enc(["int", 666]))]
    body = {}
    if r.random() < .5:
        # other contents than the ordinary: none at all, an error, exceptions, several bindings
        vb = r.choice([[], [B.varbind("1.3.6.1.5.1", v_enc([t, None]))] , vb, vb * 2 + [B.varbind("1.3.6.1.5.1", v_enc(["null", None]))]]) if (t := r.choice(["null", "nso", "nsi", "eomv"])) else vb
        if r.random() < .5:
            body = {"status": r.choice([1, 2, 3, 5, 16, 255]), "index": r.randrange(3)}
    resp = lambda **kw: S.response(q, vb, **{**body, **kw})
    pf = 2 if c.priv else 0
    good = resp()
    off = B.auth_offset(good)
    mac = good[off:off + 12]

    def withmac(m, nonzero=False):
        """message carrying MAC parameters m"""
        return resp(auth_params=m, sign=False)

    def put(m, b):
        o = B.auth_offset(m)
        return m[:o] + b + m[o + 12:]
    if k == "zero-mac":
        return withmac(bytes(12))
    if k == "no-mac":
        return withmac(b"")
    if k == "no-mac-flag":
        return resp(auth_params=b"", sign=False, flags=pf)
    if k == "flag-clear":
        return resp(flags=pf)
    if k == "flag-clear-mac":
        return resp(flags=pf | 4)
    if k == "wrong-key":
        return resp(key=r.randbytes(len(S.kul)))
    if k == "master-key":
        return resp(key=mkey(c.auth, c.apw))
    if k == "zero-key":
        return resp(key=bytes(len(S.kul)))
    if k == "user-key-of-priv":
        return resp(key=B.localize(c.auth, mkey(c.auth, b"another one"), c.engine))
    if k == "other-alg":
        alg = "md5" if c.auth == "sha1" else "sha1"
        m = resp(sign=False)
        return B.sign(alg, B.localize(alg, mkey(alg, c.apw), c.engine), m)
    if k in ("mac-11", "mac-13", "mac-16", "mac-20"):
        n = int(k[4:])
        z = resp(auth_params=bytes(n), sign=False)
        o = B.auth_offset(z)
        full = B.HASH[c.auth](bytes(64)).digest()
        import hmac as H
        full = H.new(S.kul, z, c.auth).digest() + bytes(8)
        return z[:o] + full[:n] + z[o + n:]
    if k == "mac-bit":
        i = r.randrange(96)
        return put(good, bytes(x ^ (1 << i % 8 if j == i // 8 else 0) for j, x in enumerate(mac)))
    if k == "mac-byte0":
        return put(good, bytes([mac[0] ^ 0x80]) + mac[1:])
    if k == "mac-last":
        return put(good, mac[:11] + bytes([mac[11] ^ 1]))
    if k == "mac-trunc8":
        return put(good, mac[:8] + bytes(4) if mac[8:] != bytes(4) else mac[:8] + b"\1" * 4)
    if k == "mac-doubled":
        return withmac(mac + mac)
    if k == "replay-mac":
        # the MAC of the request, or of another reply
        other = S.response(q, [B.varbind("1.3.6.1.5.1", v_enc(["int", 5]))])
        o = B.auth_offset(other)
        return put(good, r.choice([q["auth"], other[o:o + 12]]))
    if k == "over-nonzero":
        # computed without zeroing the field
        fill = r.randbytes(12)
        m = put(good, fill)
        return put(m, B.hmac96(c.auth, S.kul, m))
    if k == "swap-params":
        return resp(auth_params=b"", sign=False, priv_params=mac)
    if k == "mac-nested":
        # a valid signed message inside the value of an unsigned one
        return resp(auth_params=bytes(12), sign=False)[:0] + S.response(q, [B.varbind("1.3.6.1.5.1", v_enc(["bytes", good[:60]]))], sign=False)
    if k == "clear-signed":
        return resp(clear=True, flags=1)
    if k == "clear-noflag":
        return resp(clear=True, flags=0, auth_params=b"")
    if k == "clear-unsigned":
        return resp(clear=True, flags=1, sign=False)
    if k == "clear-flagged":
        return resp(clear=True, flags=3)
    if k == "clear-zero-mac":
        return resp(clear=True, flags=0, sign=False)
    if k == "enc-flag-clear":
        return resp(flags=2, auth_params=b"", sign=False)
    raise ValueError(k)


def maybe_report(S, m):
    """the altered message may be read as a Report (which needs no authentication), leniently"""
    def parts(b):
        p = 0
        while p < len(b):
            cls, cons, tag, s, e = B.hdr(b, p)
            yield tag, b[s:e]
            p = e
    try:
        u = list(parts(next(parts(m))[1]))
        data = u[3]
        if data[0] == 4:
            f = [x[1] for x in parts(next(parts(u[2][1]))[1])]
            plain = B.priv_decrypt(S.cfg.priv, S.pkul, f[5], int.from_bytes(f[1], "big"), int.from_bytes(f[2], "big"), data[1])
            sc = next(parts(plain))[1]
        else:
            sc = data[1]
        x = parts(sc)
        next(x), next(x)
        return next(x)[0] == 8
    except (B.BerError, IndexError, StopIteration, RuntimeError):
        return True


def dropped(x, why):
    if x[0] == "exc" and isinstance(x[1], (BlockingIOError, SnmpDecodeError)) and not is_panic(x[1]):
        return
    raise Fail(f"{why}: {show(x)}")


def run(kind, c):
    S = Session(c["cfg"])
    r = random.Random(c.get("seed", 0))
    op = c["op"]
    exp = {"get": 5, "get_many": {"1.3.6.1.5.1": 5}, "get_next": ("1.3.6.1.5.1", 5), "get_bulk": [("1.3.6.1.5.1", 5)]}[op]
    try:
        q, it = ask(S, op)
        vb = [B.varbind("1.3.6.1.5.1", v_enc(["int", 5]))]
        if kind == "report":
            S.put(S.report(q))
            return want_exc(call(S.recv_op, op, it), SnmpAuthError, what="an unauthenticated Report")
        if kind == "forged":
            m = forge(S, q, c["kind"], r)
            S.put(m)
            x = call(S.recv_op, op, it)
            if not (x[0] == "exc" and isinstance(x[1], BlockingIOError)):
                raise Fail(f"{S.cfg.name()} {op}: '{c['kind']}' reply is not dropped: {show(x)}: {m.hex()}")
        else:
            good = S.response(q, [B.varbind("1.3.6.1.5.1", v_enc(["int", 666]))])
            for _ in range(60):
                i = r.randrange(len(good) * 8)
                m = bytearray(good)
                m[i // 8] ^= 1 << i % 8
                if r.random() < .3:
                    j = r.randrange(len(good))
                    m[j] ^= r.randrange(1, 256)
                if bytes(m) == good:
                    continue
                S.put(bytes(m))
                x = call(S.recv_op, op, it)
                if x[0] == "exc" and isinstance(x[1], SnmpAuthError) and maybe_report(S, bytes(m)):
                    continue
                dropped(x, f"{S.cfg.name()} {op}: altered signed reply (bit {i}) {bytes(m).hex()}")
        S.put(S.response(q, vb))
        x = call(S.recv_op, op, it)
        if x[0] != "ok" or x[1] != exp:
            raise Fail(f"{S.cfg.name()} {op}: the correctly signed reply {show(x)}, expected {exp!r}")
    finally:
        S.close()
