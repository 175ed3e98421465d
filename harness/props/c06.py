"""C06: walks against agents which may reply anything."""
from core import *
from props.c05 import key_of


def inside(base, o):
    return len(o) > len(base) and o[:len(base)] == base


def rnd_reply(r, base, last, n):
    """varbinds around the subtree"""
    out, cur = [], list(last)
    for _ in range(n):
        k = r.random()
        if k < .55:      # advance inside
            cur = list(cur)
            if len(cur) > len(base) and r.random() < .6:
                i = r.randrange(len(base), len(cur))
                cur = cur[:i] + [min(cur[i] + r.choice([1, 2, 120, 2 ** 20]), 2 ** 32 - 1)] + [r.randrange(200) for _ in range(r.choice([0, 0, 1, 2]))]
            else:
                cur = cur + [r.choice([0, 1, 127, 128, 70000])]
                if r.random() < .15 and len(cur) < 60:     # long names
                    cur = cur + [r.choice([0, 1, 127, r.randrange(300)]) for _ in range(r.randrange(10, 62))]
            o = cur
        elif k < .63:
            o = list(last)                                            # the same again
        elif k < .7:
            o = list(base)                                            # the base itself
        elif k < .78:                                                 # backwards inside
            o = list(base) + [0] if r.random() < .5 or len(cur) <= len(base) else cur[:-1] + [max(0, cur[-1] - 1)]
        elif k < .84:
            o = list(base[:-1]) + [base[-1] + 1, 5]                   # sibling
        elif k < .88 and len(base) > 2:
            o = list(base[:-1])                                       # parent
        elif k < .92:
            o = list(base[:-1]) + [base[-1] * 128 % 2 ** 32 + 1, 3]   # shares octets, not arcs
        elif k < .96:
            o = [1, 3, 6, 1, 99]
        else:
            o = [0, 1]
        if o[1] > 39 or any(x >= 2 ** 32 for x in o):
            o = [1, 3, 6, 1, 99]
        v = ["int", r.randrange(100)] if r.random() < .85 else [r.choice(NODATA), None]
        out.append([B.dots(o), v])
    return out


def gen(ctx):
    r = ctx.rng
    for cfg in (V1, V2C, V3):
        for mode in ("sync", "async"):
            for op in ("getnext", "getbulk"):
                for k in NODATA:
                    for o in ("1.3.6.1.5", "1.3.6.1.5.1", "1.3.6.1.5.3", "1.3.6.1.7"):
                        yield "scripted", {"cfg": cfg.case(), "mode": mode, "op": op, "base": "1.3.6.1.5", "replies": [[["1.3.6.1.5.2", ["int", 1]]], [[o, [k, None]]]], "cyc": True}
                yield "scripted", {"cfg": cfg.case(), "mode": mode, "op": op, "base": "1.3.6.1.5", "replies": [[["1.3.6.1.5.2", ["int", 1]]], []], "cyc": True}
                yield "scripted", {"cfg": cfg.case(), "mode": mode, "op": op, "base": "1.3.6.1.5", "replies": [[["1.3.6.1.5.2", ["int", 1]]], [["1.3.6.1.5.3", ["int", 2]]]], "cyc": True}
                yield "scripted", {"cfg": cfg.case(), "mode": mode, "op": op, "base": "1.3.6.1.5", "replies": [[["1.3.6.1.5.2", ["int", 1]]]], "cyc": True}
                yield "scripted", {"cfg": cfg.case(), "mode": mode, "op": op, "base": "1.3.6.1.5", "replies": [[["1.3.6.1.5", ["int", 1]]]], "cyc": True}
    while True:
        cfg = vary(r.choice([V1, V2C, V2C, V3, AUTH[0], PRIVS[3]]), r, .2)
        base = key_of(r.choice(["1.3.6.1.5", "1.3.6", "1.3", "1.3.6.1.128", "1.3.6.1.5.300.4"]))
        if r.random() < .1:
            base += tuple(r.choice([0, 1, 127, 128, 255, 16384]) for _ in range(r.randrange(10, 60)))
        op = r.choice(["getnext", "getbulk", "getbulk"])
        yield "random", {"cfg": cfg.case(), "mode": r.choice(["sync", "async"]), "op": op, "base": B.dots(base), "seed": r.randrange(2 ** 60)}


def reference(base, op, replies):
    """what the walk must yield and which OID each request must name; ambiguous replies return None"""
    last, out, reqs, i = base, [], [], 0
    while True:
        reqs.append(last)
        if i >= len(replies):
            return out, reqs, False
        vbs = replies[i]
        i += 1
        if op == "getnext" and len(vbs) > 1:
            return out, reqs, "error"
        data = 0
        for o, v in vbs:
            k = key_of(o)
            if v[0] in NODATA:
                continue
            if not inside(base, k) or k <= last:
                return out, reqs, True
            out.append((o, v_py(v)))
            last = k
            data += 1
        if not data:
            return out, reqs, True


def run(kind, c):
    import agent as A
    base = key_of(c["base"])
    given, r = [], random.Random(c.get("seed", 0))

    def hook(ag, d):
        if not d["vars"]:
            return None
        last = key_of(d["vars"][0][0])
        n = len(given)
        if kind == "scripted":
            vbs = c["replies"][n % len(c["replies"])]
        else:
            vbs = rnd_reply(r, base, last, 1 if c["op"] == "getnext" else r.choice([0, 1, 2, 5, 12]))
            if n > 40:
                vbs = []
        given.append(vbs)
        return [ag.S.response(d, [B.varbind(o, v_enc(v)) for o, v in vbs])]
    with A.Agent(c["cfg"], A.Mib([]), hook=hook) as ag:
        x = call(A.drive, c["mode"], ag.port, c["cfg"], lambda api: api.walk(c["op"], *([c["base"]] if c["op"] == "getnext" else [c["base"], 10]), limit=600))
    if ag.errors:
        raise Fail(ag.errors[0])
    exp, ereqs, end = reference(base, c["op"], given)
    if x[0] == "exc" and isinstance(x[1], Fail):
        raise x[1]
    if end == "error":
        return want_exc(x, SnmpError, what="several varbinds in reply to GetNext")
    if x[0] != "ok":
        raise Fail(f"{c['op']} {show(x)} on replies {given}")
    got = [tuple(t) for t in x[1]]
    ks = [key_of(o) for o, _ in got]
    why = f"; replies {given}"
    for k in ks:
        if not inside(base, k):
            raise Fail(f"{c['op']}({c['base']}) yields {B.dots(k)} outside the subtree" + why)
    for a, b in zip(ks, ks[1:]):
        if b <= a:
            raise Fail(f"{c['op']}({c['base']}) yields {B.dots(b)} after {B.dots(a)}" + why)
    reqs = [key_of(d["vars"][0][0]) for d in ag.log if d["vars"]]
    if not same(got, exp):
        raise Fail(f"{c['op']}({c['base']}) yields {got}, expected {exp}" + why)
    if reqs != ereqs:
        raise Fail(f"{c['op']}({c['base']}) asks for {[B.dots(q) for q in reqs]}, expected {[B.dots(q) for q in ereqs]}" + why)
