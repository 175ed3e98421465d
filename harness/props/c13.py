"""C13: discovery, and following the agent's engine id, boots and time."""
from core import *
from agent import *

BT = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1]


def gen(ctx):
    r = ctx.rng
    cfgs = [(None, None, "localized", "localized")] + [(a, None, kt, kt) for a in ("md5", "sha1") for kt in KT] + [
        (a, p, kt, pkt) for a in ("md5", "sha1") for p in ("des", "aes") for kt in KT for pkt in KT]

    def case(a, p, kt, pkt, mode, known, eng, seed, n=4):
        return {"cfg": Cfg(3, a, p, kt, pkt, engine=eng).case(), "mode": mode, "known": known, "seed": seed, "n": n}

    def follow():
        for known in (False, True):
            for mode in ("sync", "async"):
                for i, x in enumerate(cfgs):
                    yield "follow", case(*x, mode, known, bytes(range(1, 6 + i % 28)), i)

    def lows():
        for k in range(4):
            for x in cfgs:
                yield "low", {"cfg": Cfg(3, x[0], x[1], x[2], x[3]).case(), "seed": k, "n": 8}
    yield from ctx.spread([follow(), lows()])
    while ctx.left() > 0:
        x = r.choice(cfgs)
        yield "follow", case(*x, r.choice(["sync", "async"]), r.random() < .4, r.randbytes(r.choice([5, 6, 11, 12, 13, 17, 31, 32])), r.randrange(2 ** 60), r.randrange(1, 8))
        yield "low", {"cfg": Cfg(3, *x, engine=r.randbytes(r.randrange(5, 33))).case(), "seed": r.randrange(2 ** 60), "n": 8}


def bt(r):
    return r.choice([r.choice(BT), r.randrange(2 ** 31)])


def run(kind, c):
    if kind == "low":
        return low(c)
    r = random.Random(c["seed"])
    cfg = Cfg.of(c["cfg"])
    vals = {f"1.3.6.1.{i}.0": ["int", i * 7] for i in range(1, 9)}
    seen = []       # requests, in order: (decoded, what the agent had last said)
    last = [None]   # (boots, time) of the last message sent which has to be accepted

    def hook(ag, d):
        seen.append((d, last[0]))
        ag.boots, ag.time = bt(r), bt(r)
        ag.S.boots, ag.S.time = ag.boots, ag.time
        out = []
        if d["engine"] == cfg.engine and r.random() < .3:
            # something which is not a reply to this request, with other boots and time
            b0 = ag.S.boots, ag.S.time
            ag.S.boots, ag.S.time = bt(r), bt(r)
            k = r.randrange(3)
            if k == 0:
                out.append(ag.S.response(d, [B.varbind("1.3.6.1.1.0", v_enc(["int", 666]))], msg_id=d["msg_id"] ^ 1))
            elif k == 1:
                out.append(ag.S.response(d, [B.varbind("1.3.6.1.1.0", v_enc(["int", 666]))], rid=d["id"] ^ 1))
            else:
                out.append(ag.S.response(d, [B.varbind("1.3.6.1.1.0", v_enc(["int", 666]))], engine=cfg.engine + b"\1"))
            ag.S.boots, ag.S.time = b0
        last[0] = (ag.boots, ag.time)
        return out + ag.answer(d)
    known = c["known"]
    got = []
    with Agent(cfg, Mib([(o, v) for o, v in vals.items()]), hook=hook) as ag:
        def fn(api):
            if r.random() < .3:
                api.refresh()
            for _ in range(c["n"]):
                o = r.choice(list(vals))
                k = r.randrange(4)
                if k == 0:
                    got.append((api.get(o), vals[o][1]))
                elif k == 1:
                    got.append((api.get_many([o]), {o: vals[o][1]}))
                elif k == 2:
                    got.append((api.walk(r.choice(["getnext", "getbulk"]), "1.3.6.1"), [(x, v[1]) for x, v in vals.items()]))
                else:
                    api.refresh()
            got.append((api.engine_id(), cfg.engine))
        w = f"{c['mode']} {cfg.name()} ({cfg.kt}/{cfg.pkt}) engine id {cfg.engine.hex()} {'given' if known else 'discovered'}"
        # without the context manager a v3 session with a known engine id may start with a plain request
        enter = not (known and r.random() < .5)
        x = call(lambda: drive(c["mode"], ag.port, cfg, fn, known, enter, timeout=2.0))
        if ag.errors:
            raise Fail(f"{w}: agent: {ag.errors[0]}")
        if x[0] != "ok":
            raise Fail(f"{w}: {show(x)} after {len(seen)} requests")
        for g, e in got:
            if not same(g, e):
                raise Fail(f"{w}: got {g!r}, expected {e!r}")
    if not seen:
        return
    start = 0
    if not known:
        d = seen[0][0]
        if d["engine"] or d["user"] or d["flags"] & 3 or d["vars"] or d["pdu"] != 0 or not d["flags"] & 4:
            raise Fail(f"{w}: discovery message has engine id {d['engine'].hex()}, user {d['user']!r}, flags {d['flags']}, {len(d['vars'])} varbinds")
        start = 1
    for i, (d, lt) in enumerate(seen):
        if i < start:
            continue
        if d["engine"] != cfg.engine or d["ctx_engine"] != cfg.engine:
            raise Fail(f"{w}: request {i} has engine id {d['engine'].hex()} / {d['ctx_engine'].hex()}")
        b = lt or (0, 0)
        if (d["boots"], d["time"]) != b:
            raise Fail(f"{w}: request {i} has boots/time {d['boots']}/{d['time']}, the agent's last message had {b[0]}/{b[1]}")
        if d["user"] != cfg.user.encode():
            raise Fail(f"{w}: request {i} for user {d['user']!r}")
        fl = (1 if cfg.auth else 0) | (2 if cfg.priv else 0)
        if d["flags"] & 3 != fl:
            raise Fail(f"{w}: request {i} has flags {d['flags']}, expected {fl}")
        if cfg.auth and not B.mac_ok(cfg.auth, ag.S.kul, d["raw"], d):
            raise Fail(f"{w}: request {i} is not signed with the key localized to {cfg.engine.hex()}")


def low(c):
    """one socket object: discovery, set_keys, then requests"""
    r = random.Random(c["seed"])
    cfg = Cfg.of(c["cfg"])
    S = Session(Cfg(3, engine=b"", user=""))
    w = f"socket {cfg.name()} ({cfg.kt}/{cfg.pkt}) engine id {cfg.engine.hex()}"
    try:
        b = (0, 0)
        eng = b""
        S.send_op("refresh", None)
        d = S.read()
        if d["engine"] or d["user"] or (d["boots"], d["time"]) != b:
            raise Fail(f"{w}: discovery message: engine id {d['engine'].hex()}, boots/time {d['boots']}/{d['time']}")
        b = S.boots, S.time = bt(r), bt(r)
        S.put(S.report(d, engine=cfg.engine))
        x = call(S.recv_op, "refresh")
        if x[0] != "ok" or S.s.get_engine_id() != cfg.engine:
            raise Fail(f"{w}: discovery: {show(x)}, engine id {S.s.get_engine_id().hex()}")
        a, kul = cfg.material(cfg.auth, cfg.kt, cfg.apw, cfg.engine) if cfg.auth else (b"", None)
        p, pkul = cfg.material(cfg.auth, cfg.pkt, cfg.ppw, cfg.engine) if cfg.priv else (b"", None)
        S.s.set_keys(cfg.user, B.ALG[cfg.auth] | KT[cfg.kt] if cfg.auth else 0, a, PRIV[cfg.priv] | KT[cfg.pkt] if cfg.priv else 0, p)
        S.cfg, S.kul, S.pkul = cfg, kul, pkul
        for i in range(c["n"]):
            op = r.choice(["refresh", "get", "get_many"])
            S.send_op(op, {"get": "1.3.6.1.1", "get_many": ["1.3.6.1.1"]}.get(op))
            d = S.read()
            expect_request(cfg, d, op, [] if op == "refresh" else ["1.3.6.1.1"], None, *b)
            if cfg.auth and not B.mac_ok(cfg.auth, kul, d["raw"], d):
                raise Fail(f"{w}: message {i} is not signed with the key localized to the discovered engine id")
            nb = S.boots, S.time = bt(r), bt(r)
            k = r.randrange(4)
            vb = [B.varbind("1.3.6.1.1", v_enc(["int", 77]))]
            if k == 0:
                # not a reply to this request
                S.put(S.response(d, vb, **r.choice([{"msg_id": d["msg_id"] ^ 1}, {"rid": d["id"] ^ 1}, {"engine": b"other"}, {"user": b"nobody"}])))
                x = call(S.recv_op, op)
                if x[0] != "exc" or not isinstance(x[1], BlockingIOError):
                    raise Fail(f"{w}: foreign reply: {show(x)}")
            elif k == 1:
                pass
            elif k == 2:
                # only reports are accepted whatever their security level is
                kw = {"flags": 0, "auth_params": b"", "sign": False}
                if cfg.auth:
                    kw = r.choice([kw, {"flags": 1, "auth_params": bytes(12), "sign": False}, {"flags": 1, "auth_params": bytes(12)}])
                if cfg.priv and r.random() < .4:
                    kw["clear"] = False
                    kw["flags"] |= 2
                S.put(S.report(d, oid=r.choice(["1.3.6.1.6.3.15.1.1.2.0", "1.3.6.1.6.3.15.1.1.4.0"]), **kw))
                x = call(S.recv_op, op)
                if op == "refresh" and x[0] != "ok" or op != "refresh" and (x[0] != "exc" or not isinstance(x[1], SnmpAuthError)):
                    raise Fail(f"{w}: {op}: report: {show(x)}")
                b = nb
            else:
                S.put(S.response(d, vb))
                x = call(S.recv_op, op)
                if x[0] != "ok":
                    raise Fail(f"{w}: {op} reply: {show(x)}")
                b = nb
    finally:
        S.close()
