"""C02: random well-formed responses through every receiving call."""
from core import *


def make(r, cfg, op):
    n = 1 if op in ("get", "get_next") else r.choice([0, 1, 1, 2, 3, 6, 12, 12, 25, 40])
    base = rnd_oid(r, r.choice([0, 2, 4, 6]))
    vs, prev = [], base
    for i in range(n):
        if op == "get_bulk":
            prev = prev + "." + str(r.randrange(0, 2 ** r.choice([1, 7, 14, 21, 28, 32])))
            o = prev
        elif op == "get_next":
            o = base + "." + ".".join(str(rnd_arc(r)) for _ in range(r.choice([1, 1, 2, 5])))
        else:
            o = rnd_oid(r, r.choice([1, 4, 9]))
        v = rnd_val(r, data=op in ("get_next", "get_bulk"))
        if n <= 2 and r.random() < .03:
            v = [r.choice(["bytes", "opaque"]), r.randbytes(r.choice([511, 1023, 1024, 1025, 1500, 2048, 3000]))]
        vs.append([o, v, r.choice([0, 0, 0, 1, 2, 4]), r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 3])])
    if len({x[0] for x in vs}) != len(vs):
        vs = vs[:1]
    while len(vs) > 1 and sum(len(B.eoid(x[0], x[3]) + v_enc(x[1], x[2])) + 8 for x in vs) > 3600:
        vs.pop()
    return {"cfg": cfg.case(), "op": op, "base": base, "vbs": vs, "forms": [r.choice([0, 0, 0, 1, 2, 4, 9]) for _ in range(4)],
            "ids": r.choice([0, 0, 1])}


def gen(ctx):
    r = ctx.rng
    while True:
        cfg = vary(r.choice([V2C, V2C, V1, V3, r.choice(AUTH), r.choice(PRIVS)]), r, .2)
        yield "resp", make(r, cfg, r.choice(["get", "get", "get_many", "get_many", "get_next", "get_bulk"]))


def run(kind, c):
    S = Session(c["cfg"])
    try:
        op = c["op"]
        it = None
        if op == "get":
            arg = c["base"]
        elif op == "get_many":
            arg = [c["base"]]
        else:
            arg = it = GetIter(c["base"], 10)
        S.send_op(op, arg)
        req = S.read()
        vbs = []
        for o, v, vf, of, sf in c["vbs"]:
            vbs.append(B.tlv(0x30, B.eoid(o, of) + v_enc(v, vf), sf))
        f = c["forms"]
        S.put(S.response(req, vbs, forms=(f[0], f[1]), form=f[2], sform=f[3]))
        r = call(S.recv_op, op, it)
    finally:
        S.close()
    vals = [(o, v) for o, v, *_ in c["vbs"]]
    if op == "get":
        v = vals[0][1]
        if v[0] in ("nso", "nsi", "eomv"):
            return want_exc(r, NoSuchInstance, what=f"get() of {v[0]}")
        exp = v_py(v)
    elif op == "get_many":
        exp = {o: v_py(v) for o, v in vals if v[0] not in NODATA}
    elif op == "get_next":
        exp = (vals[0][0], v_py(vals[0][1]))
    else:
        exp = [(o, v_py(v)) for o, v in vals]
        if not exp:
            return want_exc(r, StopAsyncIteration, what="empty reply to get_bulk")
    if r[0] != "ok" or not same(r[1], exp):
        raise Fail(f"{op} {show(r)}, expected {exp!r}; varbinds " + ", ".join(
            (B.eoid(o, of) + v_enc(v, vf)).hex() for o, v, vf, of, _ in c["vbs"]))
