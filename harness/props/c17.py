"""C17: size sweep of requests around every length boundary and the capacity; random buffer operation scripts against a list model."""
from core import *

CAP = 4080          # at the pinned commit; a larger buffer is no violation
if has("vh_buf"):
    try:
        CAP = max(CAP, vh.buf_run([("ensure", 0, [])])[0][2])
    except Exception:
        pass


def gen(ctx):
    r = ctx.rng
    for cfg in (V1, V2C):
        for n in range(0, 300):
            yield "size", {"cfg": cfg.case(), "n": n, "what": "community"}
    for n in range(0, 300):
        yield "size", {"cfg": V3.case(), "n": n, "what": "user"}

    def sweep():
        for cfg in ALL:
            for what in ("community", "oids") if cfg.ver != 3 else ("user", "oids"):
                for n in range(-70, 30):
                    yield "edge", {"cfg": cfg.case(), "d": n, "what": what}
        for cfg in ALL:
            for n in range(90, 330):
                yield "size", {"cfg": cfg.case(), "n": n, "what": "oids"}

    def rnd():
        while True:
            cfg = r.choice(ALL)
            yield "size", {"cfg": cfg.case(), "n": r.choice([r.randrange(0, 400), r.randrange(0, 5000), r.randrange(3900, 4100), r.choice([10 ** 4, 70000])]),
                           "what": r.choice(["oids", "oids", "community" if cfg.ver != 3 else "user"])}

    def scripts():
        while True:
            yield "buf", {"ops": script(r)}
    yield from ctx.spread([sweep(), rnd(), scripts(), scripts(), scripts()])


def script(r):
    ops = []
    for _ in range(r.choice([3, 8, 20, 60])):
        k = r.randrange(14)
        if k < 4:
            ops.append(["push", 0, r.randbytes(r.choice([0, 1, 2, 5, 127, 128, 255, 256, 1000, 4079, 4080, 4081, r.randrange(4100)]))])
        elif k < 6:
            ops.append(["push_u8", r.randrange(256), b""])
        elif k < 8:
            ops.append(["push_tag_len", r.choice([0, 1, 127, 128, 129, 255, 256, 257, 4080, r.randrange(65536)]), r.randbytes(1)])
        elif k < 10:
            ops.append(["push_tagged", r.randrange(256), r.randbytes(r.choice([0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 4070, 4076, 4077, 4080]))])
        elif k == 10:
            ops.append(["skip", r.choice([0, 1, 7, 8, 100, 4080, 5000, 2 ** 40, r.randrange(4100)]), b""])
        elif k == 11:
            ops.append(["reset", 0, b""])
        elif k == 12:
            ops.append(["ensure", r.choice([0, 1, 4080, 4081, r.randrange(4100)]), b""])
        else:
            ops.append(["data_mut", r.randrange(256), b""])
    return ops


def tag_len(tag, n):
    return bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82]) + n.to_bytes(2, "big"))


def model(ops):
    data = bytearray(CAP)       # zero until written
    pos = CAP
    out = []
    for op, n, d in ops:
        ok = True
        add = None
        if op == "push":
            add = d
        elif op == "push_u8":
            add = bytes([n & 255])
        elif op == "push_tag_len":
            add = tag_len(d[0], n)
        elif op == "push_tagged":
            if len(d) <= pos:
                pos -= len(d)
                data[pos:pos + len(d)] = d
                add = tag_len(n & 255, len(d))
            else:
                ok = False
        elif op == "skip":
            pos = max(0, pos - n)
        elif op == "reset":
            pos = CAP
        elif op == "ensure":
            ok = n <= pos
        elif op == "data_mut":
            for i in range(CAP - pos):
                data[pos + i] ^= (n + i) & 255
        if add is not None:
            if len(add) <= pos:
                pos -= len(add)
                data[pos:pos + len(add)] = add
            else:
                ok = False
        out.append((ok, CAP - pos, pos, bytes(data[pos:])))
    return out


def run(kind, c):
    if kind == "buf":
        if not has("vh_buf"):
            raise Skip("vh_buf")
        ops = [(o, n, bytes(d)) for o, n, d in c["ops"]]
        r = call(vh.buf_run, [(o, n, list(d)) for o, n, d in ops])
        if r[0] == "exc":
            raise Fail(f"buffer operations {c['ops']}: {show(r)}")
        exp = model(ops)
        for i, (g, e) in enumerate(zip(r[1], exp)):
            if (g[0], g[1], g[2]) != e[:3]:
                raise Fail(f"operation {i} {ops[i][0]} {ops[i][1]} ({len(ops[i][2])} octets): accepted/len/free {g[:3]}, expected {e[:3]}")
            gd = bytes(g[3])
            if gd != e[3]:
                raise Fail(f"operation {i} {ops[i][0]}: contents {gd[:32].hex()}.., expected {e[3][:32].hex()}..")
        return
    cfg = Cfg.of(c["cfg"])
    what = c["what"]
    if kind == "edge":
        n = fit(cfg, what, CAP + c["d"])
    else:
        n = c["n"]
    if what == "community":
        cfg = Cfg(cfg.ver, community="c" * n)
        oids = ["1.3.6.1.2.1"]
    elif what == "user":
        cfg = Cfg(3, cfg.auth, cfg.priv, cfg.kt, user="u" * n)
        oids = ["1.3.6.1.2.1"]
    else:
        oids = oids_for(n)
    S = Session(cfg)
    try:
        x = call(S.send_op, "get_many", oids)
        raw = S.raw()
        total, exact = size(cfg, oids)
        w = f"{cfg.name()} get_many of {len(oids)} OIDs, {what} {n}: message of {total} octets"
        if x[0] == "exc":
            if is_panic(x[1]) or not isinstance(x[1], SnmpEncodeError):
                raise Fail(f"{w}: {show(x)}, expected SnmpEncodeError")
            if raw is not None:
                raise Fail(f"{w}: SnmpEncodeError, but {len(raw)} octets were sent")
            if total <= CAP:        # the upper bound over all message and request ids
                raise Fail(f"{w}: refused")
            # and the session stays usable
            S2 = call(S.send_op, "get", "1.3.6.1.5") if total < 4060 or what == "oids" else None
            if S2 is not None:
                if S2[0] != "ok":
                    raise Fail(f"{w}: refused, then get() {show(S2)}")
                d = S.read()
                expect_request(cfg, d, "get", ["1.3.6.1.5"])
            return
        if raw is None:
            raise Fail(f"{w}: no exception and nothing was sent")
        if len(raw) > CAP:
            raise Fail(f"{w}: {len(raw)} octets sent")
        d = S.decode(raw)
        expect_request(cfg, d, "get_many", oids)
        # correct and minimal lengths at every level
        p = B.pdu(0xA0, d["id"], [B.varbind(o, B.tlv(5)) for o in oids])
        if cfg.ver != 3:
            exp = B.community_msg(cfg.ver, cfg.community.encode(), p)
        else:
            data = B.octs(d["enc"]) if cfg.priv else B.scoped(cfg.engine, p)
            exp = B.v3_msg(d["msg_id"], d["flags"], cfg.engine, 0, 0, cfg.user.encode(), data, d["auth"], d["priv"], max_size=d["max_size"])
            if cfg.priv and not d["plain"].startswith(B.scoped(cfg.engine, p)):
                raise Fail(f"{w}: encrypted data are {d['plain'].hex()}")
        if raw != exp:
            raise Fail(f"{w}: emitted {raw.hex()}, expected {exp.hex()}")
    finally:
        S.close()


def oids_for(n):
    """OIDs whose variable bindings take n octets in total (n >= 9), or fewer"""
    out = []
    while n >= 9:
        k = min(n, 100)
        if 0 < n - k < 9:
            k = n - 9
        out.append("1.3" + ".1" * (k - 7))      # 30 l 06 l 2b 01.. 05 00
        n -= k
    return out or ["1.3"]


def size(cfg, oids):
    """size of the message when every id takes 4 octets"""
    p = B.pdu(0xA0, 0x7FFFFFFF, [B.varbind(o, B.tlv(5)) for o in oids])
    if cfg.ver != 3:
        return len(B.community_msg(cfg.ver, cfg.community.encode(), p)), p
    sc = B.scoped(cfg.engine, p)
    if cfg.priv:        # padded to whole cipher blocks before encryption
        sc += bytes(-len(sc) % (8 if cfg.priv == "des" else 16))
    data = B.octs(sc) if cfg.priv else sc
    return len(B.v3_msg(0x7FFFFFFF, 4 if cfg.auth else 0, cfg.engine, 0, 0, cfg.user.encode(), data, bytes(12) if cfg.auth else b"", bytes(8) if cfg.priv else b"")), p


def fit(cfg, what, total):
    n = total - 80
    for _ in range(8):
        if what == "community":
            t = size(Cfg(cfg.ver, community="c" * n), ["1.3.6.1.2.1"])[0]
        elif what == "user":
            t = size(Cfg(3, cfg.auth, cfg.priv, cfg.kt, user="u" * n), ["1.3.6.1.2.1"])[0]
        else:
            t = size(cfg, oids_for(n))[0]
        if t == total:
            break
        n = max(0, n + total - t)
    return n
