"""Random histories of a v3 session; every emitted message is handed to check(S, d, op, oids, max_rep)."""
from core import *


def cfg_of(r, auth=None, priv=None):
    eng = r.choice([ENGINE, ENGINE, r.randbytes(5), r.randbytes(32), b"\x80" + bytes(11), r.randbytes(12)])
    return Cfg(3, auth, priv, r.choice(["localized", "localized", "master", "password"]), r.choice(["localized", "localized", "master", "password"]), eng,
               r.choice(["u5er", "a", "x" * 32, "\u00e9lan"]), apw=r.choice([b"authpassw0rd", b"a", b"p" * 70]), ppw=r.choice([b"privpassw0rd", b"authpassw0rd", b"q" * 65]))


def rekey(S, cfg):
    """set_keys of the session"""
    a, S.kul = cfg.material(cfg.auth, cfg.kt, cfg.apw, cfg.engine) if cfg.auth else (b"", None)
    p, S.pkul = cfg.material(cfg.auth, cfg.pkt, cfg.ppw, cfg.engine) if cfg.priv else (b"", None)
    S.s.set_keys(cfg.user, B.ALG[cfg.auth] | KT[cfg.kt] if cfg.auth else 0, a, PRIV[cfg.priv] | KT[cfg.pkt] if cfg.priv else 0, p)
    S.cfg = cfg


def discovered(cfg):
    """a session which learns the engine id, then gets its keys"""
    S = Session(Cfg(3, engine=b"", user=""))
    S.send_op("refresh", None)
    S.put(S.report(S.read(), engine=cfg.engine))
    x = call(S.recv_op, "refresh")
    if x[0] != "ok" or S.s.get_engine_id() != cfg.engine:
        raise Fail(f"discovery: {show(x)}, engine id {S.s.get_engine_id().hex()}, the agent's is {cfg.engine.hex()}")
    rekey(S, cfg)
    S.found = True
    return S


def history(cfg, seed, n, check, replies=True):
    r = random.Random(seed)
    cfg = Cfg.of(cfg)
    q = random.Random(seed ^ 0x5eed)
    S = discovered(cfg) if q.random() < .35 else Session(cfg)
    O = Session(r.choice([V2C, PRIVS[0], PRIVS[3]]))
    boots, tm = (S.boots, S.time) if S.found else (0, 0)
    try:
        for step in range(n):
            if q.random() < .12:
                c0 = S.cfg
                c1 = cfg_of(q, q.choice(["md5", "sha1"]) if c0.auth else None, q.choice(["des", "aes"]) if c0.priv else None)
                c1.engine = c0.engine
                if q.random() < .3:
                    c1.user = c0.user
                rekey(S, c1)
            op = r.choice(OPS + ("refresh",))
            it = mr = None
            pre = [1, 3, 6, 1, 4, 1, r.randrange(2 ** 31)]
            if op == "get":
                arg = rnd_oid(r, None, pre)
                oids = [arg]
            elif op == "get_many":
                arg = oids = [rnd_oid(r, None, pre) for _ in range(r.choice([1, 2, 5, 20]) if not (S.cfg.priv == "des" or r.random() < .7) else r.choice([1, 2, 3]))]
                if r.random() < (.1 if S.cfg.priv else .35):   # up to the size of the message buffer
                    arg = oids = [B.dots(pre + [i]) for i in range(r.choice([60, 100, 130, 160, 200]))]
            elif op == "refresh":
                arg, oids = None, []
            else:
                oids = [rnd_oid(r, None, pre)]
                mr = r.choice([1, 20, 1000]) if op == "get_bulk" else None
                arg = it = GetIter(oids[0], mr)
            S.send_op(op, arg)
            raw = S.raw()
            if raw is None:
                raise Fail(f"{op}: nothing was sent")
            d = check(S, raw, op, oids, mr, boots, tm)
            if S.raw() is not None:
                raise Fail("more than one datagram was sent")
            k = r.randrange(10)
            if k == 0:
                S.put(r.randbytes(r.choice([0, 1, 40, 2000, 5000])))
            elif k == 1:
                x = call(S.send_op, "get_many", ["1.3.6.1.4.1." + ".".join(["4294967295"] * 30)] * r.choice([30, 60]))
                raw = S.raw()
                if raw is not None:
                    check(S, raw, None, None, None, boots, tm)
            elif k == 2:
                x = call(S.send_op, "get", r.choice(["", "bad", "1.3.4294967296"]))
                if S.raw() is not None:
                    raise Fail("an invalid OID was sent")
            elif k == 3:
                call(O.send_op, "get_many", [rnd_oid(r) for _ in range(10)])
                O.raw()
            elif k == 4 and d:
                S.put(S.response(d, [B.varbind("1.3.6.1", v_enc(["int", 1]))], user=b"nobody"))
            elif k == 5 and d and S.cfg.priv:
                S.put(S.message(d, b"", cipher=r.randbytes(r.choice([8, 16, 24, 800])), salt=r.randbytes(8)))
            elif k == 6 and d and S.cfg.priv:
                S.put(S.message(d, b"", cipher=r.randbytes(16), salt=r.randbytes(r.choice([0, 7, 9]))))
            for _ in range(8):
                x = call(S.recv_op, op, it)
                if x[0] == "exc" and is_panic(x[1]):
                    raise Fail(f"{op} {show(x)}")
                if x[0] == "exc" and isinstance(x[1], BlockingIOError):
                    break
            if d and replies and r.random() < .7:
                S.boots, S.time = r.choice([0, 1, 127, 128, 2 ** 31 - 1, r.randrange(2 ** 31)]), r.choice([0, 1, 255, 65536, 2 ** 31 - 1, r.randrange(2 ** 31)])
                yv = r.choice([["int", step], ["bytes", b"\x5a" * r.choice([0, 1, 7, 8, 9, 50, r.randrange(3500) if r.random() < .2 else 100])]])
                o = (oids or ["1.3.6.1"])[0] + ".7"
                # only the last request is outstanding: ask again when something else was sent since
                if k in (1, 2):
                    S.send_op(op, arg)
                    d = check(S, S.raw(), op, oids, mr, boots, tm)
                S.put(S.response(d, [B.varbind(o, v_enc(yv))]))
                x = call(S.recv_op, op, it)
                exp = {"get": yv[1], "get_many": {o: yv[1]}, "refresh": None, "get_next": (o, yv[1]), "get_bulk": [(o, yv[1])]}[op]
                if x[0] != "ok" or not same(x[1], exp):
                    raise Fail(f"{S.cfg.name()} {op}: correct reply: {show(x)}, expected {exp!r}")
                boots, tm = S.boots, S.time
    finally:
        S.close()
        O.close()
