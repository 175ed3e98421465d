"""C01: hostile datagrams through every receiving call; only documented exceptions, always returns."""
from core import *

SPECIAL = [0, 1, 2, 3, 4, 5, 6, 7, 9, 0x0d, 0x1f, 0x30, 0x3f, 0x40, 0x42, 0x46, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0x89, 0x8a,
           0x90, 0x9f, 0xa2, 0xa8, 0xbf, 0xc3, 0xfe, 0xff]


def mutate(r, b, n=None):
    b = bytearray(b)
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 5])):
        if not b:
            break
        i = r.randrange(len(b))
        k = r.randrange(9)
        if k == 0:
            b[i] = r.randrange(256)
        elif k in (1, 2):
            b[i] = r.choice(SPECIAL)
        elif k == 3:
            b[i] = (b[i] + r.choice([1, 255])) & 255
        elif k == 4:
            del b[i]
        elif k == 5:
            b.insert(i, r.choice(SPECIAL))
        elif k == 6:
            del b[i:]
        elif k == 7:
            j = min(len(b), i + r.randrange(1, 9))
            at = r.randrange(len(b) + 1)
            b[at:at] = b[i:j]
        else:
            b[i:i] = r.randbytes(r.choice([1, 2, 8, 300]))
    return bytes(b)


def content(r, tag):
    """hostile contents for a value of this tag"""
    k = r.random()
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 130, 300])
    if tag == 9:
        c = r.choice([b"", bytes([r.randrange(256)]), bytes([1, 2, 3]), bytes([3]), bytes([2]) + b"9" * 400,
                      bytes([3]) + b"1E" + b"9" * 30, bytes([0x83, 0]), bytes([0x83, 255]), bytes([0x83]), bytes([0x80]),
                      bytes([0x83, r.randrange(256)]) + r.randbytes(r.randrange(12)), bytes([0x80 | r.randrange(128)]) + r.randbytes(n),
                      bytes([0x81, 0x7f, 0xff, 1]), bytes([0x81, 0x80, 0, 1]), bytes([3]) + r.randbytes(n)])
        return c
    if tag in (6, 0x0d):
        return r.choice([b"", b"\x80", b"\xff" * r.randrange(1, 14), b"\x2b" + b"\xff" * r.randrange(0, 12) + b"\x7f", b"\x2b\x06" + b"\x8f\xff\xff\xff\x7f",
                         b"\x2b" + b"\x81" * n, b"\x80" * n + b"\x01", bytes(range(n % 128)), r.randbytes(n), b"\x2b\x06\x01" + b"\x01" * (n + 120)])
    if k < .4:
        return r.choice([b"", b"\0" * n, b"\xff" * n, b"\x80" + b"\0" * n, b"\0\xff" + b"\xff" * n])
    return r.randbytes(n)


TAGS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x0d, 0x30, 0x31, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x80, 0x81, 0x82, 0x83, 0xa0, 0xa2, 0x24,
        0x22, 0xc0, 0xe0]


def hlen(r, n):
    k = r.random()
    if k < .75:
        return B.elen(n, r.choice([0, 0, 0, 1, 2, 4, 8, 9]))
    v = r.choice([n + 1, n - 1 if n else 1, n + 2, 127, 128, 255, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64,
                  2 ** 64 - n, 2 ** 72])
    return r.choice([B.elen(v), B.elen(v, 9), b"\x80", b"\xff", b"\x84", b"\x89" + b"\xff" * 9, bytes([0x80 | r.randrange(1, 20)]) + r.randbytes(10)])


def element(r, tag=None):
    tag = r.choice(TAGS) if tag is None else tag
    c = content(r, tag)
    t = bytes([tag])
    if r.random() < .05:
        t = r.choice([b"\x1f\x81\x00", b"\x1f" + b"\xff" * r.randrange(1, 12) + b"\x7f", b"\x3f\x80", b"\x1f", b"\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", b"\x5f\x01",
                                b"\x9f\xff\x7f"])
    return t + hlen(r, len(c)) + c


def hostile_pdu(r, rid):
    vbs = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        k = r.random()
        if k < .15:
            x = element(r)
        else:
            o = r.choice([B.eoid(rnd_oid(r, r.choice([0, 1, 4]))), B.eoid("1.3.6.1.2.1"), element(r, 6), element(r, 0x0d), B.tlv(0x0d, b"\x01\x02"), b""])
            x = o + (element(r) if r.random() < .8 else v_enc(rnd_val(r))) + (element(r) if r.random() < .1 else b"")
        vbs.append(bytes([0x30]) + hlen(r, len(x)) + x if r.random() < .3 else B.tlv(0x30, x))
    v = b"".join(vbs)
    f = [B.eint(rid), B.eint(0), B.eint(0)]
    if r.random() < .2:
        f[r.randrange(3)] = element(r, 2)
    body = b"".join(f) + (b"\x30" + hlen(r, len(v)) + v if r.random() < .2 else B.tlv(0x30, v))
    if r.random() < .05:
        body += element(r)
    ident = r.choice([0xa2] * 8 + [0xa8, 0xa0, 0xa1, 0xa5, 0xa3, 0xa6, 0xbf, 0x30])
    return bytes([ident]) + (hlen(r, len(body)) if r.random() < .1 else B.elen(len(body))) + body


def gen(ctx):
    r = ctx.rng
    yield from fixed()

    def sessions():
        while True:
            cfg = vary(r.choice(ALL + [V1, V2C, V3]), r)
            yield "session", {"cfg": cfg.case(), "seed": r.randrange(2 ** 60), "n": 40}

    def decoders():
        while True:
            yield "decoder", {"seed": r.randrange(2 ** 60), "n": 60000}
    yield from ctx.spread([sessions(), sessions(), sessions(), decoders()])


def fixed():
    """datagrams the review of the receive path singled out"""
    for cfg in (V1, V2C, V3):
        for c in (b"", b"\x30", b"\x30\x00", b"\x30\x80", b"\x30\xff", b"\x30\x84\xff\xff\xff\xff", b"\x30\x88" + b"\xff" * 8, b"\x1f", b"\x1f" + b"\xff" * 20,
                  b"\x30\x81", b"\0" * 5000, b"\x30\x82\xff\xff" + b"\0" * 60000):
            yield "datagram", {"cfg": cfg.case(), "op": "get", "data": c}
    for op in OPS:
        for v in (b"\x30\x00", B.tlv(0x30, b"\x06\x00"), B.tlv(0x30, b"\x0d\x00\x05\x00"), B.tlv(0x30, b"\x06\x01\x80\x05\x00"), B.tlv(0x30, B.eoid("1.3.6") + b"\x02\x00"),
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x02\x09" + b"\x01" * 9), B.tlv(0x30, B.eoid("1.3.6") + b"\x02\x7f" + b"\xff" * 127),
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x09\x01\x80"), B.tlv(0x30, B.eoid("1.3.6") + b"\x09\x02\x83\x00"), B.tlv(0x30, B.eoid("1.3.6") + b"\x09\x03\x03\xff\xfe"),
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x40\x05\x01\x02\x03\x04\x05"), B.tlv(0x30, B.eoid("1.3.6") + b"\x40\x03\x01\x02\x03"),
                  B.tlv(0x30, B.eoid("1.3.6.1.5.6") + b"\x82\x00"), B.tlv(0x30, B.eoid("1.3.6.1.5.6") + b"\x80\x00"), B.tlv(0x30, B.eoid("1.3.6.1.5.6") + b"\x81\x00"),
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x41\x0a" + b"\xff" * 10), B.tlv(0x30, B.eoid("1.3.6") + b"\x46\x00"), B.tlv(0x30, B.eoid("1.3.6")) * 2,
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x05\x00") + B.tlv(0x30, b"\x0d\x0a" + b"\x01" * 10 + b"\x05\x00"),
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x05\x00") + B.tlv(0x30, b"\x0d\x01\x80\x05\x00"),
                  B.tlv(0x30, B.eoid("1.3.6") + b"\x05\x00") + B.tlv(0x30, b"\x0d\x00\x05\x00")):
            for cfg in (V2C, V3):
                yield "varbinds", {"cfg": cfg.case(), "op": op, "vars": v}
    for cfg in PRIVS:
        for n in (0, 1, 7, 8, 9, 15, 16, 17, 24, 800, 3000, 4000, 4072, 4080):
            for sl in (0, 1, 7, 8, 9, 16, 300):
                if sl != 8 and n not in (0, 8, 24):
                    continue
                for ap in ((0, 11, 12, 13) if n in (0, 8, 24) else (12,)):
                    yield "encrypted", {"cfg": cfg.case(), "op": "get", "n": n, "salt": sl, "ap": ap}


def check(r, what):
    if r[0] == "ok":
        return
    e = r[1]
    if is_panic(e):
        raise Fail(f"{what}: {type(e).__name__}: {e}")
    if not isinstance(e, DOCUMENTED):
        raise Fail(f"{what}: undocumented exception {type(e).__name__}: {e}")


def ask(S, op):
    it = None
    arg = "1.3.6.1.5"
    if op == "get_many":
        arg = ["1.3.6.1.5", "1.3.6.1.7"]
    elif op in ("get_next", "get_bulk"):
        arg = it = GetIter("1.3.6.1.5", 5)
    S.send_op(op, arg)
    return S.read(), it


def run(kind, c):
    if kind == "decoder":
        if not has("vh_msg"):
            raise Skip("decoders are not reachable")
        t = []
        for cfg in (V1, V2C, V3, PRIVS[0]):
            S = Session(cfg)
            q, _ = ask(S, "get_many")
            t.append(q["raw"])
            vb = [B.varbind("1.3.6.1.5.1", v_enc(["int", 5])), B.varbind("1.3.6.1.5.2", b"\x09\x05\x031E2."), B.tlv(0x30, b"\x0d\x02\x03\x00" + v_enc(["counter64", 2 ** 63])),
                  B.varbind("1.3.6.1.5.3", v_enc(["ip", "1.2.3.4"])), B.varbind("1.3.6.1.5.4", b"\x09\x04\x81\x01\x02\x03")]
            t.append(S.response(q, vb))
            t.append(B.scoped(b"engine", B.pdu(B.RESP, 5, vb)))
            t.append(B.scoped(b"engine", B.pdu(B.REPORT, 5, vb)))
            S.close()
        n, acc, bad = vh.msg_fuzz(c["seed"], c["n"], [list(x) for x in t])
        if bad:
            raise Fail(f"decoder {['v1', 'v2c', 'v3', 'scoped PDU'][bad[0]]} panics on {bytes(bad[1]).hex()}")
        return
    if kind == "session":
        r = random.Random(c["seed"])
        S = Session(c["cfg"])
        try:
            history = []
            for _ in range(c["n"]):
                op = r.choice(OPS if S.cfg.ver != 3 else OPS + ("refresh",))
                if op == "refresh":
                    S.send_op(op, None)
                    q, it = S.read(), None
                else:
                    q, it = ask(S, op)
                for _ in range(r.choice([1, 1, 2, 3])):
                    d = hostile(r, S, q)
                    S.put(d)
                    history.append(d)
                for k in range(4):
                    x = call(S.recv_op, op, it)
                    check(x, f"{S.cfg.name()} recv_{op} after {[h.hex() for h in history[-6:]]}")
                    if x[0] == "exc" and isinstance(x[1], BlockingIOError):
                        break
        finally:
            S.close()
        return
    S = Session(c["cfg"])
    try:
        q, it = ask(S, c["op"])
        if kind == "datagram":
            d = c["data"]
        elif kind == "varbinds":
            d = S.message(q, B.tlv(0xa2, B.eint(q["id"]) + b"\x02\x01\x00\x02\x01\x00" + B.tlv(0x30, c["vars"])))
        elif kind == "encrypted":
            d = S.message(q, b"", salt=bytes(c["salt"]), cipher=bytes(range(256)) * 16 if c["n"] > 4090 else (bytes(range(256)) * 16)[:c["n"]],
                          auth_params=bytes(c["ap"]))
        S.put(d)
        check(call(S.recv_op, c["op"], it), f"recv_{c['op']} on {d[:200].hex()}")
    finally:
        S.close()


def hostile(r, S, q):
    k = r.random()
    vbs = [B.varbind(rnd_oid(r, r.choice([0, 3])) if r.random() < .3 else "1.3.6.1.5." + str(rnd_arc(r)), v_enc(rnd_val(r))) for _ in range(r.choice([0, 1, 1, 3]))]
    good = B.pdu(r.choice([B.RESP] * 5 + [B.REPORT]), q["id"], vbs)
    kw = {}
    if r.random() < .1:
        kw["engine"] = r.choice([b"", b"x", r.randbytes(32), r.randbytes(300)])
    if r.random() < .1:
        kw["boots"], kw["time"] = r.choice([(-1, -1), (2 ** 31, 2 ** 31), (2 ** 63 - 1, -2 ** 63), (2 ** 32, 2 ** 40), (0, 0)])
    if k < .35:
        return S.message(q, hostile_pdu(r, q["id"]), **{a: b for a, b in kw.items() if a != "boots" and a != "time"})
    if k < .5:
        return S.message(q, mutate(r, good))
    if k < .6 and S.cfg.ver == 3:
        sc = mutate(r, B.scoped(S.cfg.engine, good))
        return S.message(q, good, scoped=sc, tail=r.choice([b"", b"\0" * 3, b"junk"]))
    if k < .7 and S.cfg.priv:
        return S.message(q, good, cipher=r.randbytes(r.choice([0, 1, 7, 8, 16, 17, 64, 1000, 3000])), salt=r.randbytes(r.choice([0, 4, 7, 8, 8, 9, 16])))
    if k < .95:
        m = S.message(q, good, auth_params=r.randbytes(r.choice([0, 8, 11, 12, 12, 13, 40])) if S.cfg.auth and r.random() < .2 else bytes(12) if S.cfg.auth else b"")
        m2 = mutate(r, m)
        if S.cfg.auth and r.random() < .8:
            try:
                o = B.auth_offset(m2)
                if o + 12 <= len(m2):
                    m2 = B.sign(S.cfg.auth, S.kul, m2, o)
            except (B.BerError, IndexError):
                pass
        return m2
    return r.randbytes(r.choice([0, 1, 2, 10, 100, 1400, 4079, 4080, 4081, 9000]))
