"""C16: decoding depends only on the declared octets; overrunning or trailing octets are rejected."""
from core import *

ELEM = {"bool": 1, "int": 2, "octets": 4, "null": 5, "oid": 6, "objdesc": 7, "real": 9, "reloid": 13, "sequence": 0x30, "ipaddress": 0x40, "counter32": 0x41,
        "gauge32": 0x42, "timeticks": 0x43, "opaque": 0x44, "counter64": 0x46, "uinteger32": 0x47}
TAILS = [b"\0", b"\xff", b"\x01", b"\x02\x01\x05", b"\x80" * 9, b"\x7f" * 12, b"9", b"E5", b".5", b"0" * 20, bytes(range(40)), b"\xff" * 300]


def content(r, k):
    if k == "bool":
        return r.randbytes(1)
    if k == "int":
        return r.randbytes(r.randrange(1, 9))
    if k == "null":
        return b""
    if k == "oid":
        return B.oid_content(B.arcs_of(rnd_oid(r)))
    if k == "reloid":
        return b"".join(B.arc(rnd_arc(r)) for _ in range(r.randrange(1, 6)))
    if k == "real":
        return rnd_real(r)[2]
    if k == "ipaddress":
        return r.randbytes(4)
    if k == "counter64":
        return r.randbytes(r.randrange(1, 9))
    if k in ("counter32", "gauge32", "timeticks", "uinteger32"):
        return r.randbytes(r.randrange(1, 5))
    if k == "sequence":
        return B.eint(r.randrange(300)) + B.octs(r.randbytes(r.randrange(10)))
    return r.randbytes(r.choice([0, 1, 5, 127, 128, 200, 256]))


def gen(ctx):
    r = ctx.rng

    def elems():
        for k, t in ELEM.items():
            for tail in TAILS:
                c = content(r, k)
                for as_value in (0, 1):
                    yield "elem", {"kind": "value" if as_value else k, "x": B.tlv(t, c), "s": tail}
        while True:
            k = r.choice(list(ELEM))
            yield "elem", {"kind": r.choice([k, k, "value", "option", "header"]), "x": B.tlv(ELEM[k], content(r, k), r.choice([0, 0, 1, 2, 3, 4, 5, 8, 9, 12, 126])),
                           "s": r.choice([r.choice(TAILS), r.randbytes(r.choice([1, 2, 8, 60]))])}
            k = r.choice(list(ELEM))
            x = B.tlv(ELEM[k], content(r, k), r.choice([0, 0, 1, 3, 9]))
            yield "cut", {"kind": r.choice([k, "value"]), "x": x[:r.randrange(len(x))]}

    def last():
        # the same varbind, last and not last in the list; element lengths reaching into the following varbind
        while True:
            cfg = vary(r.choice([V1, V2C, V2C, V3, r.choice(AUTH), r.choice(PRIVS)]), r, .2)
            v = rnd_real(r) if r.random() < .4 else rnd_val(r, data=True)
            yield "last", {"cfg": cfg.case(), "v": v, "after": [rnd_val(r, data=True) for _ in range(r.randrange(1, 4))], "form": r.choice([0, 0, 1])}

    def nest():
        while True:
            yield "nest", {"cfg": r.choice([V1, V2C, V3, AUTH[0], PRIVS[1], PRIVS[3]]).case(), "at": r.randrange(64), "by": r.choice([1, 1, 2, 3, 5, 60]), "seed": r.randrange(2 ** 60)}

    def trail():
        while True:
            yield "trail", {"cfg": r.choice([V1, V2C, V3, AUTH[1], PRIVS[0], PRIVS[3]]).case(), "s": r.choice([r.choice(TAILS), r.randbytes(r.randrange(1, 30))]), "form": r.choice([0, 0, 1, 2])}
    yield from ctx.spread([elems(), elems(), last(), nest(), trail()])


def val(p):
    return (type(p[0]).__name__, repr(p[0]), p[1])


def run(kind, c):
    if kind == "elem":
        if not has("vh_elem"):
            raise Skip("vh_elem")
        a = call(vh.elem, c["kind"], c["x"])
        b = call(vh.elem, c["kind"], c["x"] + c["s"])
        w = f"{c['kind']} {c['x'].hex()} followed by {c['s'].hex()}"
        for x in (a, b):
            if x[0] == "exc":
                raise Fail(f"{w}: {show(x)}")
        if c["kind"] == "header":
            n = len(c["x"]) - B.hdr(c["x"])[3]
            if a[1] is not None and (b[1] is None or a[1][0] != b[1][0] or b[1][1] != a[1][1] + len(c["s"]) or a[1][1] != n):
                raise Fail(f"{w}: {a[1]} / {b[1]}")
            return
        if a[1] is None:
            return              # not a supported encoding
        if a[1][1] != 0:
            raise Fail(f"{w}: {a[1][1]} octets left when decoded alone")
        if b[1] is None:
            raise Fail(f"{w}: refused, decodes alone to {a[1][0]!r}")
        if b[1][1] != len(c["s"]):
            raise Fail(f"{w}: {b[1][1]} octets left, {len(c['s'])} follow the element")
        if val(a[1])[:2] != val(b[1])[:2]:
            raise Fail(f"{w}: decoded to {b[1][0]!r}, alone to {a[1][0]!r}")
        return
    if kind == "cut":
        if not has("vh_elem"):
            raise Skip("vh_elem")
        b = call(vh.elem, c["kind"], c["x"])
        if b[0] == "exc" or b[1] is not None:
            raise Fail(f"truncated {c['kind']} {c['x'].hex()}: {show(b)}")
        return
    S = Session(c["cfg"])
    try:
        S.send_op("get_many", ["1.3.6.1.1"])
        req = S.read()
        if kind == "last":
            x = B.varbind("1.3.6.1.1", v_enc(c["v"], c["form"]))
            S.put(S.response(req, [x] + [B.varbind("1.3.6.1.2.%d" % i, v_enc(v)) for i, v in enumerate(c["after"])]))
            a = call(S.recv_op, "get_many")
            exp = {"1.3.6.1.1": v_py(c["v"])}
            exp.update({"1.3.6.1.2.%d" % i: v_py(v) for i, v in enumerate(c["after"])})
            if a[0] != "ok" or not same(a[1], exp):
                raise Fail(f"varbind {x.hex()} followed by others: {show(a)}, expected {exp!r}")
        elif kind == "trail":
            m = S.response(req, [B.varbind("1.3.6.1.1", v_enc(["int", 1]))], form=c["form"])
            S.put(m + c["s"])
            a = call(S.recv_op, "get_many")
            if a[0] != "exc" or not isinstance(a[1], SnmpDecodeError):
                raise Fail(f"{S.cfg.name()}: {len(c['s'])} octets {c['s'].hex()} after the message: {show(a)}, expected SnmpDecodeError")
        else:
            nest(S, req, c)
    finally:
        S.close()


def nest(S, req, c):
    """one inner length is increased beyond the end of the enclosing element"""
    r = random.Random(c["seed"])
    vb = [B.varbind("1.3.6.1.1", v_enc(["bytes", b"abcdef"])), B.varbind("1.3.6.1.2", v_enc(["int", 77777])), B.varbind("1.3.6.1.3", v_enc(["oid", "1.3.6.9"]))]
    p = B.pdu(B.RESP, req["id"], vb)
    v3 = S.cfg.ver == 3
    plain = B.scoped(S.cfg.engine, p, b"") if v3 else p
    if v3 and not S.cfg.priv and c["at"] % 2:
        # header of the message itself (unauthenticated structure)
        m = S.message(req, p)
        m, w = stretch(m, c["at"], c["by"])
    elif not v3:
        m = S.message(req, p)
        m, w = stretch(m, c["at"], c["by"])
    else:
        t, w = stretch(plain, c["at"], c["by"])
        m = S.message(req, b"", scoped=t)
    S.put(m)
    # something readable follows in the receive buffer from an earlier, longer datagram: nothing of it may be seen
    a = call(S.recv_op, "get_many")
    if a[0] == "exc" and isinstance(a[1], (SnmpDecodeError, BlockingIOError)) and not is_panic(a[1]):
        return
    raise Fail(f"{S.cfg.name()}: inner length beyond the enclosing element ({w}): {show(a)}; message {m.hex()}")


def stretch(b, at, by):
    """-> message where the length of an element, last in its parent, is larger than what is left"""
    # collect (position of the length octet, end of contents, end of parent)
    found = []

    def walk(p, end, depth):
        while p < end:
            cls, cons, tag, s, e = B.hdr(b, p)
            if depth:
                found.append((p, s, e, end))
            if b[p] & 0x20:
                walk(s, e, depth + 1)
            p = e
    walk(0, len(b), 0)
    p, s, e, end = found[at % len(found)]
    n = e - s
    new = end - s + by          # content length reaching `by` octets beyond the parent
    if s - p == 2 and new < 128:
        return b[:p + 1] + bytes([new]) + b[p + 2:], f"element at {p}: length {n} -> {new}, {end - s} available"
    # needs long form: same number of length octets only
    lo = s - p - 2
    if lo and new < 256 ** lo:
        return b[:p + 2] + new.to_bytes(lo, "big") + b[s:], f"element at {p}: length {n} -> {new}, {end - s} available"
    # top octet of the short form cannot express it
    return b[:p + 1] + b"\x7f" + b[p + 2:], f"element at {p}: length {n} -> 127"
