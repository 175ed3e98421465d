"""C05: complete walks over random finite MIBs against an RFC 3416 agent, all versions, clients and methods."""
from core import *


def rnd_mib(r):
    """entries around a base; includes the base itself, siblings sharing a prefix, deep and boundary arcs"""
    base = r.choice(["1.3.6.1.2.1", "1.3.6", "1.3", "1.3.6.1.4.1.4294967295", "1.3.6.1.2.1.127", "1.3.6.1.16384", "0.0", "2.5.4", "1.3.6.1.2.1.2.2.1.10"])
    if r.random() < .12:
        base += "".join("." + str(r.choice([0, 1, 127, 128, 255, 16384])) for _ in range(r.randrange(10, 60)))
    es = set()
    b = key_of(base)
    arcs = [0, 1, 2, 9, 10, 11, 126, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28, 2 ** 31, 2 ** 32 - 1]
    for _ in range(r.choice([0, 1, 2, 5, 12, 30])):
        k = r.random()
        d = r.choice([1, 1, 2, 3, 6])
        if k < .06:
            es.add(b + tuple(r.choice(arcs[:11]) for _ in range(r.randrange(10, 118))))
        elif k < .7:
            es.add(b + tuple(r.choice(arcs) for _ in range(d)))
        elif k < .85:
            es.add(b[:-1] + (b[-1] + r.choice([-1, 1, 0]),) + tuple(r.choice(arcs) for _ in range(d)))
        else:
            es.add((1, 3) + tuple(r.choice(arcs) for _ in range(d)))
    if r.random() < .3:
        es.add(b)
    es = [e for e in es if len(e) >= 2 and e[0] <= 2 and 0 <= e[1] <= 39 and all(0 <= x < 2 ** 32 for x in e)]
    return base, [[B.dots(e), rnd_val(r, data=True) if r.random() < .5 else ["int", i]] for i, e in enumerate(sorted(es))]


def key_of(o):
    return tuple(B.arcs_of(o))


def gen(ctx):
    r = ctx.rng
    while True:
        cfg = vary(r.choice([V1, V2C, V2C, V3, r.choice(AUTH), r.choice(PRIVS)]), r, .2)
        base, es = rnd_mib(r)
        if cfg.priv and len(es) > 12:
            es = es[:12]
        cfg = cfg.case()
        for mode in ("sync", "async"):
            for op in ("getnext", "fetch", "fetch-nobulk") if cfg["ver"] == 0 else ("getnext", "getbulk", "fetch", "fetch-nobulk"):
                if r.random() < .45:
                    continue
                yield "walk", {"cfg": cfg, "mode": mode, "op": op, "base": base, "mib": es, "rep": r.choice([1, 2, 3, 5, 10, 20, 100]),
                               "cap": r.choice([0, 0, 1, 2, 7]), "style": r.choice([0, 1, 2])}


def run(kind, c):
    import agent as A
    mib = A.Mib([(o, v) for o, v in c["mib"]])
    exp = [(o, v_py(v)) for o, v in mib.below(c["base"])]
    op = c["op"]
    with A.Agent(c["cfg"], mib, cap=c["cap"], v1_style=c["style"]) as ag:
        def go(api):
            if op == "getbulk":
                return api.walk(op, c["base"], c["rep"], limit=len(exp) + 50)
            return api.walk("fetch" if op.startswith("fetch") else op, c["base"], limit=len(exp) + 50)
        x = call(A.drive, c["mode"], ag.port, c["cfg"], go, True, None) if not op.startswith("fetch") else call(
            lambda: A.drive(c["mode"], ag.port, c["cfg"], go, allow_bulk=op == "fetch", max_repetitions=c["rep"]))
    if ag.errors:
        raise Fail(ag.errors[0])
    if x[0] != "ok":
        if isinstance(x[1], Fail):
            raise x[1]
        raise Fail(f"walk {show(x)}, expected {exp}")
    got = x[1]
    if not same([tuple(t) for t in got], exp):
        i = next((i for i, (a, b) in enumerate(zip(got, exp)) if not same(tuple(a), b)), min(len(got), len(exp)))
        raise Fail(f"{op} over {[e[0] for e in c['mib']]} from {c['base']}: {len(got)} entries, expected {len(exp)}; first difference at {i}: "
                   f"{got[i] if i < len(got) else 'end'} / {exp[i] if i < len(exp) else 'end'}")
