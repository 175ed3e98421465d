"""C03: every emitted datagram against an independent strict decoder, after arbitrary histories."""
from core import *


def gen(ctx):
    r = ctx.rng
    for mode in ("sync", "async"):
        for cfg in [V1, V2C, V3, AUTH[0], AUTH[1], PRIVS[0], PRIVS[3]]:
            for bulk in (True, False):
                yield "fetch", {"cfg": cfg.case(), "mode": mode, "bulk": bulk, "rep": r.choice([1, 2, 7, 10, 20, 2 ** 16, 2 ** 31 - 1]) if cfg is not V2C else 1}

    def hist():
        while True:
            cfg = r.choice(ALL)
            yield "history", {"cfg": Cfg(cfg.ver, cfg.auth, cfg.priv, cfg.kt, user=r.choice(["u5er", "", "x" * 31]), engine=r.choice([ENGINE, r.randbytes(5), r.randbytes(32)]),
                                         community=r.choice(["public", "", "x" * 127, "x" * 128, "y" * 300])).case(), "seed": r.randrange(2 ** 60), "n": 25}

    def sess():
        while True:
            yield "session", {"cfg": r.choice(ALL).case(), "mode": r.choice(["sync", "async"]), "seed": r.randrange(2 ** 60)}
    yield from ctx.spread([hist(), hist(), hist(), sess()])


def run(kind, c):
    if kind == "history":
        return history(c)
    import agent as A
    cfg = Cfg.of(c["cfg"])
    if kind == "fetch":
        mib = A.Mib([("1.3.6.1.2.%d" % i, ["int", i]) for i in range(1, 12)])
        with A.Agent(cfg, mib) as ag:
            A.drive(c["mode"], ag.port, cfg, lambda api: api.walk("fetch", "1.3.6.1.2"), allow_bulk=c["bulk"], max_repetitions=c["rep"])
        if ag.errors:
            raise Fail(ag.errors[0])
        reqs = [d for d in ag.log if d["vars"]]
        want = 5 if c["bulk"] and cfg.ver != 0 else 1
        if not reqs or {d["pdu"] for d in reqs} != {want}:
            raise Fail(f"fetch() with allow_bulk={c['bulk']} on {cfg.name()} used PDUs {[hex(d['ident']) for d in reqs]}, expected {hex(0xa0 | want)}")
        for d in reqs:
            if want == 5 and (d["f1"], d["f2"]) != (0, c["rep"]):
                raise Fail(f"fetch() sent non-repeaters {d['f1']}, max-repetitions {d['f2']}, expected 0, {c['rep']}")
        return
    r = random.Random(c["seed"])
    mib = A.Mib([("1.3.6.1.%d.%d" % (r.randrange(3), i), ["int", i]) for i in range(1, 9)])
    rep = r.choice([1, 2, 20, 100])
    with A.Agent(cfg, mib) as ag:
        def go(api):
            for _ in range(4):
                n = len(ag.log)
                op = r.choice(["get", "get_many", "getnext", "getbulk"])
                exp = None
                if op == "get":
                    o = rnd_oid(r)
                    call(api.get, o)
                    exp = ("get", [o], None)
                elif op == "get_many":
                    os_ = [rnd_oid(r) for _ in range(r.choice([1, 2, 5]))] if r.random() < .8 else ["1.3.6.%d" % (i % 90) for i in range(r.choice([33, 65, 129, 257]))]
                    arg = os_ if r.random() < .5 else (x for x in os_)
                    call(api.get_many, arg)
                    exp = ("get_many", os_, None)
                else:
                    if op == "getbulk" and cfg.ver == 0:
                        op = "getnext"
                    m = r.choice([None, 1, 5, 50])
                    base = r.choice(["1.3.6.1", "1.3.6.1.1", "1.3"])
                    api.walk(op, *([base] if op == "getnext" or m is None else [base, m]))
                    exp = ("get_next" if op == "getnext" else "get_bulk", [base], None if op == "getnext" else m or rep)
                new = ag.log[n:]
                if not new:
                    raise Fail(f"{op} sent nothing" + (f" ({ag.errors[0]})" if ag.errors else ""))
                for i, d in enumerate(new):
                    first = n == 0 and i == 0
                    expect_request(cfg, d, exp[0], exp[1] if i == 0 or exp[0] in ("get", "get_many") else [d["vars"][0][0]], exp[2], 0 if first else ag.boots, 0 if first else ag.time)
        A.drive(c["mode"], ag.port, cfg, go, max_repetitions=rep)
    if ag.errors:
        raise Fail(ag.errors[0])


def history(c):
    r = random.Random(c["seed"])
    S = Session(c["cfg"])
    O = Session(r.choice(ALL))   # another session shares the buffer pool
    boots = tm = 0
    try:
        for step in range(c["n"]):
            op = r.choice(OPS if S.cfg.ver != 3 else OPS + ("refresh",))
            it, mr = None, None
            if op == "get":
                arg = rnd_oid(r)
                oids = [arg]
            elif op == "get_many":
                arg = oids = [rnd_oid(r) for _ in range(r.choice([0, 1, 2, 3, 10, 30]))]
                if r.random() < .12:     # as many names as fit the message
                    arg = oids = ["1.3.%d" % r.randrange(128) for _ in range(r.choice([64, 65, 128, 129, 255, 256, 257, 300, 400]))]
            elif op == "refresh":
                arg, oids = None, []
            else:
                o = rnd_oid(r)
                oids = [o]
                mr = r.choice([0, 1, 2, 127, 128, 255, 256, 32767, 32768, 2 ** 31 - 1]) if op == "get_bulk" else None
                arg = it = GetIter(o, mr)
            S.send_op(op, arg)
            d = S.read()
            expect_request(S.cfg, d, op, oids, mr, boots, tm)
            if S.cfg.ver == 3 and (d["flags"] & ~7 or (d["flags"] & 4 and op != "refresh" and oids)):
                raise Fail(f"flags {d['flags']:#x}")
            if S.raw() is not None:
                raise Fail("more than one datagram was sent")
            # what happens in between
            for _ in range(r.choice([0, 1, 2])):
                k = r.randrange(8)
                if k == 0:
                    S.put(r.randbytes(r.choice([0, 1, 40, 2000, 5000])))
                elif k == 1:
                    S.put(S.response(d, [B.varbind("1.3.6", v_enc(["bytes", b"\x5a" * r.choice([0, 50, 1000, 3000])]))]))
                elif k == 2:
                    S.put(S.response(d, [B.varbind("1.3.6", v_enc(rnd_val(r)))], rid=(d["id"] + 1) & 0x7fffffff))
                elif k == 3:
                    call(S.send_op, "get_many", ["1.3.6.1.4.1." + ".".join(["4294967295"] * 30)] * r.choice([30, 60]))
                    while S.raw() is not None:
                        pass
                elif k == 4:
                    call(O.send_op, "get_many", [rnd_oid(r) for _ in range(40)])
                    while O.raw() is not None:
                        pass
                elif k == 5:
                    call(S.send_op, "get", r.choice(["", "bad", "1.3.4294967296"]))
                elif k == 6:
                    S.put(S.message(d, b"\xa2\x03\x02\x01"))
                elif S.cfg.ver == 3:
                    S.put(S.report(d))
                x = call(S.recv_op, op, it)
            if r.random() < .5 and op != "refresh":
                # a matching reply updates boots and time (v3)
                while not (call(S.recv_op, op, it)[0] == "exc" and S_empty(S, op, it)):
                    pass
            if S.cfg.ver == 3:
                S.boots, S.time = r.choice([0, 1, 127, 128, 2 ** 31 - 1]), r.choice([0, 1, 255, 65536, 2 ** 31 - 1])
                S.send_op("refresh", None)
                q = S.read()
                while call(S.recv_op, "refresh")[0] == "ok":
                    pass
                drain(S)
                S.put(S.response(q, []))
                x = call(S.recv_op, "refresh")
                if x[0] != "ok":
                    raise Fail(f"refresh: {show(x)}")
                boots, tm = S.boots, S.time
    finally:
        S.close()
        O.close()


def S_empty(S, op, it):
    return isinstance(call(S.recv_op, op, it)[1], BlockingIOError)


def drain(S):
    for _ in range(10):
        x = call(S.recv_op, "get")
        if x[0] == "exc" and isinstance(x[1], BlockingIOError):
            return
