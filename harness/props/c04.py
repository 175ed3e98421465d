"""C04: matching of replies: scripted strays before the reply, and random networks (loss, delay, duplication, reordering)."""
from core import *

# stray kinds that must be skipped
SKIP_ALL = ["rid+1", "rid-1", "rid^bit", "rid+2^31", "rid+2^32", "rid+2^63", "-rid", "rid0", "reqpdu", "nextpdu"]
SKIP_COM = ["com-prefix", "com-longer", "com-empty", "com-case", "com-bit", "report"]
SKIP_V3 = ["msgid+1", "msgid+2^32", "msgid-rid", "user-prefix", "user-longer", "user-empty", "user-bit", "engine-bit", "engine-empty", "engine-prefix", "engine-longer",
           "report-msgid", "report-user", "report-engine"]
BAD = ["garbage", "empty", "truncated", "trailing", "otherver", "otherver2", "ver259", "pdutag"]


def kinds(ver):
    return SKIP_ALL + (SKIP_V3 if ver == 3 else SKIP_COM)


def flip(r, b):
    if not b:
        return b"\0"
    i = r.randrange(len(b))
    return b[:i] + bytes([b[i] ^ 1 << r.randrange(8)]) + b[i + 1:]


def stray(S, q, kind, r):
    val = [B.varbind("1.3.6.1.5.1", v_enc(["int", 666]))]
    rid = q["id"]
    c = S.cfg.community.encode()
    e, u = S.cfg.engine, S.cfg.user.encode()
    t = {"rid+1": rid + 1, "rid-1": rid - 1, "rid^bit": rid ^ 1 << r.randrange(31), "rid+2^31": rid + 2 ** 31, "rid+2^32": rid + 2 ** 32,
         "rid+2^63": rid + 2 ** 63 - 2 ** 64, "-rid": -rid - 1, "rid0": 0 if rid else 5}
    if kind in t:
        return S.response(q, val, rid=t[kind])
    if kind in ("reqpdu", "nextpdu"):
        return S.message(q, B.pdu(0xa0 if kind == "reqpdu" else 0xa1, rid ^ 1, [B.varbind("1.3.6.1.5", b"\x05\x00")]))
    t = {"com-prefix": c[:-1], "com-longer": c + b"x", "com-empty": b"", "com-case": c.swapcase(), "com-bit": flip(r, c)}
    if kind in t:
        return S.response(q, val, community=t[kind])
    if kind == "report":
        return S.message(q, B.pdu(B.REPORT, rid, val))
    t = {"msgid+1": q.get("msg_id", 0) + 1, "msgid+2^32": q.get("msg_id", 0) + 2 ** 32, "msgid-rid": rid if rid != q.get("msg_id") else rid + 1}
    if kind in t:
        return S.response(q, val, msg_id=t[kind])
    t = {"user-prefix": u[:-1], "user-longer": u + b"x", "user-empty": b"", "user-bit": flip(r, u)}
    if kind in t:
        return S.response(q, val, user=t[kind])
    t = {"engine-bit": flip(r, e), "engine-empty": b"", "engine-prefix": e[:-1], "engine-longer": e + b"\0"}
    if kind in t:
        return S.response(q, val, engine=t[kind])
    if kind == "report-msgid":
        return S.report(q, msg_id=q["msg_id"] ^ 1)
    if kind == "report-user":
        return S.report(q, user=u + b"x")
    if kind == "report-engine":
        return S.report(q, engine=flip(r, e))
    m = S.response(q, val)
    if kind == "garbage":
        return r.choice([b"\x30\x03\x02\x01", b"\x05\x00", b"hello", b"\x30\x00"])
    if kind == "empty":
        return b"\0"
    if kind == "truncated":
        return m[:r.randrange(1, len(m))]
    if kind == "trailing":
        return m + r.choice([b"\0", b"\x05\x00", m])
    if kind in ("otherver", "otherver2", "ver259"):
        vers = [v for v in (0, 1, 3) if v != S.cfg.ver]
        v = vers[0] if kind == "otherver" else vers[1] if kind == "otherver2" else 256 + S.cfg.ver
        if v == 3:
            return B.v3_msg(q["id"], 0, b"", 0, 0, b"", B.scoped(b"", B.pdu(B.RESP, rid, val)))
        if S.cfg.ver == 3 and v == 259:
            i = m.index(b"\x02\x01\x03")
            return B.tlv(0x30, b"\x02\x02\x01\x03" + m[i + 3:])
        return B.community_msg(v, c, B.pdu(B.RESP, rid, val))
    if kind == "pdutag":
        return S.message(q, B.pdu(r.choice([0xa3, 0xa4, 0xa6, 0xa7, 0xbe]), rid, val)) if not S.cfg.priv else b"\x30\x00"
    raise ValueError(kind)


def gen(ctx):
    r = ctx.rng
    for cfg in ALL:
        for k in kinds(cfg.ver):
            yield "script", {"cfg": cfg.case(), "ops": [["get", [k]]], "seed": 1}
        for k in BAD:
            yield "script", {"cfg": cfg.case(), "ops": [["get", [k]]], "seed": 1}

    def scripts():
        while True:
            cfg = r.choice(ALL + [V1, V2C])
            if r.random() < .4:
                n = r.choice([1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300])
                name = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(n))
                cfg = Cfg(cfg.ver, cfg.auth, cfg.priv, cfg.kt, user=name[:r.choice([16, 32, 40, 300])], community=name,
                          engine=r.randbytes(r.choice([5, 8, 9, 12, 13, 16, 17, 24, 31, 32])) if r.random() < .5 else ENGINE)
            ops = []
            for _ in range(r.choice([1, 2, 4])):
                op = r.choice(OPS)
                ops.append([op, [r.choice(kinds(cfg.ver) + (BAD if r.random() < .5 else [])) for _ in range(r.choice([0, 1, 2, 5]))]])
                if r.random() < .06:       # a flood
                    ops[-1][1] = [r.choice(kinds(cfg.ver)) for _ in range(3)] * r.choice([6, 11, 12, 22, 40])
            yield "script", {"cfg": cfg.case(), "ops": ops, "seed": r.randrange(2 ** 60), "wait": r.random() < .4}

    def nets():
        while True:
            yield "network", {"cfg": r.choice(ALL + [V1, V2C]).case(), "seed": r.randrange(2 ** 60), "n": 25}
    yield from ctx.spread([scripts(), nets()])


def ask(S, op):
    it = None
    arg = "1.3.6.1.5"
    if op == "get_many":
        arg = ["1.3.6.1.5"]
    elif op in ("get_next", "get_bulk"):
        arg = it = GetIter("1.3.6.1.5", 3)
    S.send_op(op, arg)
    return S.read(), it


def value(op, x):
    if op == "get":
        return x
    if op == "get_many":
        return x.get("1.3.6.1.5.1")
    if op == "get_next":
        return x[1]
    return x[0][1]


def run(kind, c):
    r = random.Random(c["seed"])
    S = Session(c["cfg"], 5 * 10 ** 9 if c.get("wait") else 0)
    try:
        if kind == "script":
            for n, (op, strays) in enumerate(c["ops"]):
                q, it = ask(S, op)
                sent = []
                for k in strays:
                    m = stray(S, q, k, r)
                    sent.append((k, m))
                    S.put(m)
                S.put(S.response(q, [B.varbind("1.3.6.1.5.1", v_enc(["int", 1000 + n]))]))
                for k, m in sent:
                    if k in BAD:
                        x = call(S.recv_op, op, it)
                        if x[0] != "exc" or not isinstance(x[1], SnmpDecodeError):
                            raise Fail(f"{S.cfg.name()} {op}: '{k}' datagram {m.hex()}: {show(x)}, expected SnmpDecodeError")
                x = call(S.recv_op, op, it)
                if x[0] != "ok" or value(op, x[1]) != 1000 + n:
                    raise Fail(f"{S.cfg.name()} {op}: {show(x)} instead of the matching reply, which came after {[(k, m.hex()) for k, m in sent]}")
                if not c.get("wait"):
                    x = call(S.recv_op, op, it)
                    want_exc(x, BlockingIOError, what="nothing left to receive")
            return
        pool = []
        for n in range(c["n"]):
            op = r.choice(OPS)
            q, it = ask(S, op)
            pool.append((n, S.response(q, [B.varbind("1.3.6.1.5.1", v_enc(["int", n]))])))
            batch = [pool[r.randrange(len(pool))] for _ in range(r.choice([0, 1, 2, 4]))]
            if r.random() < .5:
                batch.append(pool[-1])
            r.shuffle(batch)
            for _, m in batch:
                S.put(m)
            expect = any(k == n for k, _ in batch)
            x = call(S.recv_op, op, it)
            if expect:
                if x[0] != "ok" or value(op, x[1]) != n:
                    raise Fail(f"{S.cfg.name()} {op}: {show(x)} for request {n}; delivered were the replies to {[k for k, _ in batch]}")
            else:
                want_exc(x, BlockingIOError, what=f"{S.cfg.name()} {op}: only stale replies {[k for k, _ in batch]} for request {n}")
            if r.random() < .5:      # leave the rest in the socket or drop it
                while not isinstance(call(S.recv_op, op, it)[1], BlockingIOError):
                    pass
            else:
                # leftovers stay queued: they are stale for the next request, duplicates of it included
                pass
    finally:
        S.close()
