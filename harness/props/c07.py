"""C07: get / get_many result mapping."""
from core import *

HDR = 5
# report: varbinds (OIDs of counters), request id (None: the one asked for), error status
REPS = [[["1.3.6.1.6.3.15.1.1.%d.0" % i], None, 0] for i in range(1, 7)] + [
    [[], None, 0], [[], 0, 0], [["1.3.6.1.6.3.15.1.1.2.0", "1.3.6.1.6.3.15.1.1.5.0"], None, 0], [["1.3.6.1.5"], None, 0],
    [["1.3.6.1.6.3.15.1.1.3.0"], 0, 0], [["1.3.6.1.6.3.15.1.1.3.0"], -1, 5]]


def gen(ctx):
    r = ctx.rng
    for cfg in (V1, V2C, V3, AUTH[0], PRIVS[0], PRIVS[3]):
        for k in NODATA:
            yield "low", {"cfg": cfg.case(), "op": "get", "vbs": [["1.3.6.1.5", [k, None]]], "status": 0, "report": False}
        for st in (0, 2, 5):
            yield "low", {"cfg": cfg.case(), "op": "get", "vbs": [["1.3.6.1.5", ["null", None]]], "status": st, "report": False}
        yield "low", {"cfg": cfg.case(), "op": "get", "vbs": [], "status": 0, "report": False}
        yield "low", {"cfg": cfg.case(), "op": "get_many", "vbs": [], "status": 0, "report": False}
        for n in (2, 3, 10):
            yield "low", {"cfg": cfg.case(), "op": "get", "vbs": [["1.3.6.1.%d" % i, ["int", i]] for i in range(n)], "status": 0, "report": False}
            yield "low", {"cfg": cfg.case(), "op": "get", "vbs": [["1.3.6.1.%d" % i, ["null", None]] for i in range(n)], "status": 0, "report": False}
        if cfg.ver == 3:
            for op in OPS[:2]:
                for a in (True, False):
                    for rep in REPS:
                        yield "low", {"cfg": cfg.case(), "op": op, "vbs": [], "status": 0, "report": True, "secure": a, "rep": rep}

    def low():
        while True:
            cfg = vary(r.choice([V1, V2C, V2C, V3, r.choice(AUTH), r.choice(PRIVS)]), r, .2)
            op = r.choice(["get", "get_many", "get_many"])
            n = r.choice([0, 1, 1, 1, 2]) if op == "get" else r.choice([0, 1, 2, 3, 8])
            yield "low", {"cfg": cfg.case(), "op": op, "vbs": [[rnd_oid(r, r.choice([1, 3])), rnd_val(r) if r.random() < .6 else [r.choice(NODATA), None]] for _ in range(n)],
                          "status": r.choice([0, 0, 0, 1, 2, 5]), "report": False}
            if r.random() < .03:      # as many as a message holds
                n = r.choice([17, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 320])
                yield "low", {"cfg": cfg.case(), "op": "get_many", "vbs": [["1.3.%d" % r.randrange(2000), ["int", r.randrange(100)] if r.random() < .8 else [r.choice(NODATA), None]]
                                                                           for _ in range(n)], "status": 0, "report": False}

    def api():
        while True:
            cfg = vary(r.choice([V1, V2C, V3, r.choice(AUTH), r.choice(PRIVS)]), r, .2)
            yield "api", {"cfg": cfg.case(), "mode": r.choice(["sync", "async"]), "op": r.choice(["get", "get_many"]), "report": cfg.ver == 3 and r.random() < .2, "rep": r.choice(REPS),
                          "vbs": [[rnd_oid(r, 2), rnd_val(r) if r.random() < .6 else [r.choice(NODATA), None]] for _ in range(r.choice([0, 1, 1, 2, 4]))], "status": 0}
    yield from ctx.spread([low(), low(), low(), api()])


def report(S, q, c, sec):
    oids, rid, st = c.get("rep") or REPS[3]
    kw = dict({"clear": True, "flags": 0, "auth_params": b"", "user": q["user"]}, **sec)
    return S.message(q, B.pdu(B.REPORT, q["id"] if rid is None else rid, [B.varbind(o, B.tlv(0x41, b"\x07")) for o in oids], st, 1 if st else 0), **kw)


def judge(c, r):
    vbs = c["vbs"]
    if c["report"]:
        return want_exc(r, SnmpAuthError, what=f"{c['op']} answered by a Report")
    if c["op"] == "get":
        if len(vbs) > 1:
            return want_exc(r, SnmpError, what=f"get() answered with {len(vbs)} varbinds")
        if not vbs or vbs[0][1][0] == "null":
            exp = None
        elif vbs[0][1][0] in NODATA:
            return want_exc(r, NoSuchInstance, what=f"get() answered with {vbs[0][1][0]}")
        else:
            exp = v_py(vbs[0][1])
    else:
        exp = {}
        for o, v in vbs:
            if v[0] not in NODATA:
                exp[o] = v_py(v)
    if r[0] != "ok" or not same(r[1], exp):
        raise Fail(f"{c['op']} {show(r)}, expected {exp!r} for {vbs}")


def run(kind, c):
    if kind == "low":
        S = Session(c["cfg"])
        try:
            S.send_op(c["op"], "1.3.6.1.5" if c["op"] == "get" else ["1.3.6.1.5", "1.3.6.1.6"])
            q = S.read()
            if c["report"]:
                sec = {"clear": False, "flags": 1 | (2 if S.cfg.priv else 0), "auth_params": bytes(12)} if c["secure"] and S.cfg.auth else {}
                S.put(report(S, q, c, sec))
            else:
                S.put(S.response(q, [B.varbind(o, v_enc(v)) for o, v in c["vbs"]], status=c["status"], index=1 if c["status"] and c["vbs"] else 0))
            r = call(S.recv_op, c["op"])
        finally:
            S.close()
        return judge(c, r)
    import agent as A

    def hook(ag, d):
        if d["version"] == 3 and not d["vars"]:
            return None
        if c["report"]:
            return [report(ag.S, d, c, {})]
        return [ag.S.response(d, [B.varbind(o, v_enc(v)) for o, v in c["vbs"]])]
    with A.Agent(c["cfg"], A.Mib([]), hook=hook) as ag:
        r = A.drive(c["mode"], ag.port, c["cfg"], lambda api: call(getattr(api, c["op"]), "1.3.6.1.5" if c["op"] == "get" else ["1.3.6.1.5"]))
    if ag.errors:
        raise Fail(ag.errors[0])
    judge(c, r)
