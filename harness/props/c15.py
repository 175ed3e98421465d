"""C15: own encodings are minimal and decode back, for INTEGERs, OIDs and whole request messages."""
from core import *

EDGE = sorted({max(-2 ** 63, min(2 ** 63 - 1, s * 2 ** k + d)) for k in range(64) for d in range(-3, 4) for s in (1, -1)})
KIND = {0: 0xA0, 1: 0xA1, 5: 0xA5}


def rint(r):
    b = r.randrange(0, 64)
    return max(-2 ** 63, min(2 ** 63 - 1, r.choice([2 ** b, 2 ** b - 1, -2 ** b, -2 ** b - 1, r.randrange(2 ** b + 1), -r.randrange(2 ** b + 1)])))


def rmsg(r, big=False):
    k = r.choice([0, 1, 5])
    n = r.choice([0, 1, 1, 2, 3, 6, 12, 40]) if not big else r.choice([100, 150])
    return {"kind": k, "id": rint(r), "nr": rint(r) if k == 5 else 0, "mr": rint(r) if k == 5 else 0, "names": [rnd_oid(r) for _ in range(n)]}


def gen(ctx):
    r = ctx.rng
    w = 1 << (24 if ctx.thorough else 18)
    n = 1 << 14 if not ctx.thorough else 1 << 17
    for lo in range(-w, w, 1 << 17):
        yield "ints", {"lo": lo, "hi": min(w, lo + (1 << 17)) - 1}
    for k in range(1, 8):
        for b in (2 ** (8 * k - 1), 2 ** (8 * k), -2 ** (8 * k - 1), -2 ** (8 * k)):
            yield "ints", {"lo": b - n, "hi": b + n}
    yield "ints", {"lo": 2 ** 63 - 1 - 2 * n, "hi": 2 ** 63 - 1}
    yield "ints", {"lo": -2 ** 63, "hi": -2 ** 63 + 2 * n}
    for v in EDGE:
        yield "wire", {"cfg": V2C.case(), "mr": v}

    def ints():
        while True:
            yield "rint", {"seed": r.randrange(2 ** 63), "n": 200000 if not ctx.thorough else 5000000}

    def comm():
        for size in range(0, 300):
            yield "comm", {"ver": size & 1, "community": bytes(size), "kind": 0, "id": 1, "nr": 0, "mr": 0, "names": ["1.3"]}
        while True:
            yield "comm", {"ver": r.randrange(2), "community": r.randbytes(r.choice([0, 1, 6, 20, 120, 127, 128, 129, 254, 255, 256, 257, 1000])), **rmsg(r, r.random() < .1)}

    def v3():
        while True:
            e = r.random() < .4
            yield "v3", {"msg_id": rint(r), "flags": r.randrange(8) & ~2 | (2 if e else 0), "usm": [r.randbytes(r.choice([0, 5, 11, 32])), rint(r), rint(r), r.randbytes(r.choice([0, 4, 32, 127, 128, 260])),
                         r.choice([b"", bytes(12), r.randbytes(12)]), r.choice([b"", r.randbytes(8)])],
                         "enc": r.randbytes(r.choice([0, 1, 8, 100, 127, 128, 255, 256, 1000])) if e else None, "ctx": r.randbytes(r.choice([0, 5, 32])), **rmsg(r)}

    def wire():
        while True:
            yield "wire", {"cfg": r.choice(ALL).case(), "mr": rint(r)}
            yield "oids", {"cfg": r.choice([V1, V2C, V3]).case(), "names": [rnd_oid(r) for _ in range(r.choice([1, 2, 5, 20]))]}

    def oid():
        while True:
            yield "oid", {"oid": rnd_oid(r)}
    yield from ctx.spread([ints(), comm(), comm(), v3(), v3(), wire(), oid()])


def names_vbs(names):
    return [B.varbind(o, B.tlv(5)) for o in names]


def want_pdu(c):
    return B.pdu(KIND[c["kind"]], c["id"], names_vbs(c["names"]), c["nr"], c["mr"])


def cmp_pdu(c, got, what):
    k, i, nr, mr, names = got
    exp = (c["kind"], c["id"], c["nr"], c["mr"], [B.oid_content(B.arcs_of(o)) for o in c["names"]])
    g = (k, i, nr, mr, [bytes(x) for x in names])
    if g != exp:
        raise Fail(f"{what} decodes back as {g}, expected {exp}")


def run(kind, c):
    if kind == "ints" or kind == "rint":
        if not has("vh_int"):
            raise Skip("vh_int")
        x = vh.int_range(c["lo"], c["hi"]) if kind == "ints" else vh.int_random(c["seed"], c["n"])
        if x:
            raise Fail(f"INTEGER {x[0]}: {x[1]}")
        return
    if kind == "oid":
        if not has("vh_oid"):
            raise Skip("vh_oid")
        exp = B.oid_content(B.arcs_of(c["oid"]))
        x = vh.oid_parse(c["oid"])
        if x is None or bytes(x) != exp:
            raise Fail(f"OID {c['oid']} encoded as {None if x is None else bytes(x).hex()}, expected {exp.hex()}")
        y = vh.oid_print(exp)
        if y != c["oid"]:
            raise Fail(f"OID {c['oid']}: own encoding {exp.hex()} printed as {y}")
        return
    if kind == "wire":
        S = Session(c["cfg"])
        try:
            x = call(lambda: S.send_op("get_bulk", GetIter("1.3.6.1", c["mr"])))
            if x[0] != "ok":
                raise Fail(f"max-repetitions {c['mr']}: {show(x)}")
            d = S.read()
            if d["f2"] != c["mr"]:
                raise Fail(f"INTEGER {c['mr']} emitted as {d['f2']}")
            exp = B.pdu(0xA5, d["id"], names_vbs(["1.3.6.1"]), 0, c["mr"])
            if d["pdu_raw"] != exp:
                raise Fail(f"PDU emitted as {d['pdu_raw'].hex()}, minimal form is {exp.hex()}")
        finally:
            S.close()
        return
    if kind == "oids":
        S = Session(c["cfg"])
        try:
            S.send_op("get_many", c["names"])
            d = S.read()
            if d["version"] == 3:
                f = d["flags"]
                exp = B.v3_msg(d["msg_id"], f, d["engine"], d["boots"], d["time"], d["user"], B.scoped(d["ctx_engine"], B.pdu(0xA0, d["id"], names_vbs(c["names"]))),
                               d["auth"], d["priv"], max_size=d["max_size"])
            else:
                exp = B.community_msg(d["version"], d["community"], B.pdu(0xA0, d["id"], names_vbs(c["names"])))
            if d["raw"] != exp:
                raise Fail(f"request emitted as {d['raw'].hex()}, minimal form is {exp.hex()}")
        finally:
            S.close()
        return
    if not has("vh_msg"):
        raise Skip("vh_msg")
    if kind == "comm":
        x = call(vh.comm_rt, c["ver"], c["community"], c["kind"], c["id"], c["nr"], c["mr"], c["names"])
        exp = B.community_msg(c["ver"], c["community"], want_pdu(c))
        w = f"v{c['ver'] + 1} message"
        if x[0] == "exc":
            raise Fail(f"{w}: {show(x)}")
        if x[1] is None:
            if len(exp) <= 4080:
                raise Fail(f"{w} of {len(exp)} octets is refused by the encoder")
            return
        raw, back = x[1]
        if bytes(raw) != exp:
            raise Fail(f"{w} encoded as {bytes(raw).hex()}, minimal form is {exp.hex()}")
        if back is None:
            raise Fail(f"{w}: own encoding {exp.hex()} is rejected")
        if bytes(back[0]) != c["community"]:
            raise Fail(f"{w}: community {bytes(back[0])!r} decoded back instead of {c['community']!r}")
        cmp_pdu(c, back[1], w)
        return
    u = c["usm"]
    x = call(vh.v3_rt, c["msg_id"], c["flags"], tuple(u), c["enc"], c["ctx"], c["kind"], c["id"], c["nr"], c["mr"], c["names"])
    w = "v3 message"
    if x[0] == "exc":
        raise Fail(f"{w}: {show(x)}")
    if x[1] is None:
        data = B.octs(c["enc"]) if c["enc"] is not None else B.scoped(c["ctx"], want_pdu(c))
        n = len(B.v3_msg(c["msg_id"], c["flags"], u[0], u[1], u[2], u[3], data, u[4], u[5]))
        if n < 4070:
            raise Fail(f"{w} of {n} octets is refused by the encoder")
        return
    raw, mark, back = x[1]
    raw = bytes(raw)
    ms = B.dec_msg(raw)["max_size"] if c["enc"] is None or True else 0
    data = B.octs(c["enc"]) if c["enc"] is not None else B.scoped(c["ctx"], want_pdu(c))
    exp = B.v3_msg(c["msg_id"], c["flags"], u[0], u[1], u[2], u[3], data, u[4], u[5], max_size=ms)
    if raw != exp:
        raise Fail(f"{w} encoded as {raw.hex()}, minimal form is {exp.hex()}")
    if back is None:
        raise Fail(f"{w}: own encoding {exp.hex()} is rejected")
    g = (back[0], back[1], bytes(back[2][0]), back[2][1], back[2][2], bytes(back[2][3]), bytes(back[2][4]), bytes(back[2][5]))
    e = (c["msg_id"], c["flags"], u[0], u[1], u[2], u[3], u[4], u[5])
    if g != e:
        raise Fail(f"{w} header decodes back as {g}, expected {e}")
    if c["enc"] is not None:
        if back[3] is None or bytes(back[3]) != c["enc"]:
            raise Fail(f"{w}: encrypted data decoded back differ")
    else:
        if back[4] is None or bytes(back[4][0]) != c["ctx"]:
            raise Fail(f"{w}: context engine id decoded back differs")
        cmp_pdu(c, back[4][1], w)
