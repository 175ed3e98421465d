"""C08: OID text in, OID octets out, and back."""
from core import *

NASTY = ["", ".", "1", "1.", ".1.3", "1..3", "1.3.", "01.3.6", "1.03.6", "1.3.06", "1.40", "1.39", "0.39", "0.40", "2.39", "2.40", "2.47", "2.48", "2.100", "2.999.3", "3.1", "3.39", "4.0",
         "6.15", "255.1", "1.3.4294967295", "1.3.4294967296", "1.3.4294967297", "1.3.8589934593", "1.3.18446744073709551615", "1.3.18446744073709551616", "1.3.18446744073709551617",
         "1.3.340282366920938463463374607431768211457", "4294967297.3.6", "1.4294967299.6", "1.259.6", "257.3.6", "1.3.-1", "-1.3", "1.-3.6", "1.3.+6", "+1.3.6", "1.+3.6", " 1.3.6", "1.3.6 ",
         "1. 3.6", "1.3.6\n", "\t1.3", "1.3.6\0", "1,3,6", "1.3.a", "a", "iso.3.6", "1.3.0x10", "1.3.1e3", "1.3.6_1", "1.3.\u0661", "\uff11.3.6", "1.3.\u00b2", "1\u20243", "1.3." + "9" * 400,
         "1.3" + ".1" * 10, "1.3" + ".4294967295" * 60, "1.3.16383.16384.2097151.2097152.268435455.268435456", "1.3.0.0.0", "0.0", "0.0.0", "2.0", "2.39.128", "1.3.127.128.255.256",
         "10.3", "19.0", "00.39", "1.3.6.1.2.1.1.1.0", "1.3 .6", "1.3.6.", "1...3", "..", "1.3.%d", "1.3.6.1.4.1.2147483647.2147483648"]


def texts(r):
    k = r.random()
    if k < .5:
        return rnd_oid(r, r.choice([0, 1, 3, 8, 30, 100]), [r.choice([0, 1, 2]), r.randrange(40)])
    ps = [str(r.choice([0, 1, 2, 2, 3, 9])), str(r.choice([0, 3, 39, 40, 41, 47, 79, 128, 255, 999]))] + [str(rnd_arc(r)) for _ in range(r.choice([0, 1, 2, 6]))]
    for _ in range(r.choice([0, 1, 1, 2])):
        i = r.randrange(len(ps))
        n = int(ps[i]) if ps[i].isdigit() and ps[i].isascii() and ps[i] else 1
        ps[i] = r.choice([str(n + 2 ** 32), str(n + 2 ** 64), str(n + 2 ** 8), str(n + 2 ** 16), str(2 ** r.randrange(20, 70)), "0" + ps[i], "+" + ps[i], "-" + ps[i], " " + ps[i], "",
                          ps[i] + "\0", chr(r.choice([0x660, 0xff10, 0x966])) + ps[i], ps[i] + r.choice(["a", "_", "e1", ",", ";", "\x80"])])
    t = ".".join(ps)
    while r.random() < .3:      # any character anywhere
        x = chr(r.randrange(0, 128)) if not NEARB or r.random() < .5 else NEARB[r.randrange(len(NEARB))].decode("latin1")
        i = r.randrange(len(t) + 1)
        t = t[:i] + x + t[i + r.choice([0, 0, 1]):]
    return t


def gen(ctx):
    r = ctx.rng
    for s in NASTY:
        for op in OPS + ("api",):
            yield "send", {"text": s, "op": op}
    if has("vh_oid"):
        def fast():
            while True:
                yield "parse", {"texts": [texts(r) for _ in range(200)]}
                yield "render", {"oids": [rnd_oid(r, r.choice([0, 1, 4, 20]), [r.choice([0, 1, 2]), r.randrange(40)]) for _ in range(200)]}
    else:
        def fast():
            return iter(())

    def wire():
        while True:
            yield "send", {"text": texts(r), "op": r.choice(OPS)}
            yield "key", {"oid": rnd_oid(r, None, [r.choice([0, 1, 2]), r.randrange(40)]), "op": r.choice(["get_many", "get_value"])}
    yield from ctx.spread([fast(), wire(), wire(), wire()])


def plain(text):
    """the OID the text denotes as dotted decimals, leniently (leading zeros, arcs of any size); None: denotes nothing"""
    ps = text.split(".")
    if len(ps) < 2:
        return None
    out = []
    for p in ps:
        q = p[1:] if p[:1] == "+" else p
        if not q or any(c not in "0123456789" for c in q):
            return None
        out.append(int(q))
    return out


def judge(text, content, refused, how):
    must = B.oid_denotes(text)
    if refused:
        if must is not None:
            raise Fail(f"{how}({text!r}) is refused")
        return
    d = plain(text)
    if d is None:
        raise Fail(f"{how}({text!r}) is accepted and sent as {content.hex()}")
    if d[0] > 2 or (d[0] < 2 and d[1] > 39) or B.oid_content(d) != content:
        raise Fail(f"{how}({text!r}) is sent as {content.hex()} ({B.dots(B.dec_oid(content)) if content and not content[-1] & 128 else '?'})")


def run(kind, c):
    if kind == "parse":
        if not has("vh_oid"):
            raise Skip("not reachable")
        for t in c["texts"]:
            x = call(vh.oid_parse, t)
            if x[0] != "ok":
                raise Fail(f"parsing {t!r} {show(x)}")
            judge(t, x[1], x[1] is None, "SnmpOid::try_from")
        return
    if kind == "render":
        if not has("vh_oid"):
            raise Skip("not reachable")
        for o in c["oids"]:
            x = call(vh.oid_print, list(B.oid_content(B.arcs_of(o))))
            if x != ("ok", o):
                raise Fail(f"OID {o} is rendered as: {show(x)}")
        return
    S = Session(V2C)
    try:
        if kind == "key":
            S.send_op("get_many", ["1.3.6"])
            q = S.read()
            if c["op"] == "get_many":
                S.put(S.response(q, [B.varbind(c["oid"], v_enc(["int", 1]))]))
                exp = {c["oid"]: 1}
            else:
                S.put(S.response(q, [B.varbind("1.3.6", v_enc(["oid", c["oid"]]))]))
                exp = {"1.3.6": c["oid"]}
            x = call(S.recv_op, "get_many")
            if x[0] != "ok" or x[1] != exp:
                raise Fail(f"OID {c['oid']} in a reply: {show(x)}")
            return
        t, op = c["text"], c["op"]
        if op == "api":
            return api(t)
        arg = t
        if op == "get_many":
            arg = ["1.3.6.1", t, "1.3.6.2"]
        elif op in ("get_next", "get_bulk"):
            x = call(GetIter, t, 5)
            if x[0] == "exc":
                if not isinstance(x[1], (SnmpError, ValueError)):
                    raise Fail(f"GetIter({t!r}) {show(x)}")
                return judge(t, None, True, "GetIter")
            arg = x[1]
        x = call(S.send_op, op, arg)
        raw = S.raw()
        if x[0] == "exc":
            if is_panic(x[1]) or not isinstance(x[1], (SnmpError, ValueError)):
                raise Fail(f"{op}({t!r}) {show(x)}")
            if raw is not None:
                raise Fail(f"{op}({t!r}) {show(x)}, but a datagram was sent")
            if isinstance(x[1], SnmpEncodeError) and B.oid_denotes(t) and len(t) > 3900:
                return
            return judge(t, None, True, op)
        if raw is None:
            raise Fail(f"{op}({t!r}): nothing was sent")
        m = B.Rd(B.Rd(raw).take(0x30))
        m.int(), m.take(4)
        p = B.Rd(m.any()[1])
        p.int(), p.int(), p.int()
        v = B.Rd(p.take(0x30))
        got = []
        while v.more():
            got.append(B.Rd(v.take(0x30)).take(6))
        if op == "get_many":
            if len(got) != 3 or got[0] != B.oid_content([1, 3, 6, 1]) or got[2] != B.oid_content([1, 3, 6, 2]):
                raise Fail(f"get_many with {t!r} in the middle sends {[g.hex() for g in got]}")
            got = got[1:2]
        if len(got) != 1:
            raise Fail(f"{op}({t!r}) sends {len(got)} OIDs")
        judge(t, got[0], False, op)
    except B.BerError as e:
        raise Fail(f"{c}: {e}")
    finally:
        S.close()


def api(t):
    import agent as A
    with A.Agent(V2C, A.Mib([]), hook=lambda ag, d: [ag.S.response(d, [])]) as ag:
        ag.S.decode = lambda b: {"version": 1, "id": 0, "vars": [1], "rawmsg": b}
        for mode in ("sync", "async"):
            n = len(ag.log)
            if B.oid_denotes(t) is not None:
                continue        # answered through the low-level interface
            for op in ("get", "get_many", "getnext", "getbulk"):
                def go(api):
                    if op == "get":
                        return api.get(t)
                    if op == "get_many":
                        return api.get_many([t])
                    return api.walk(op, t)
                x = call(lambda: A.drive(mode, ag.port, V2C, go, True, None, timeout=0.3))
                if x[0] == "exc" and isinstance(x[1], (SnmpError, ValueError)) and not is_panic(x[1]):
                    if len(ag.log) != n:
                        raise Fail(f"{mode} {op}({t!r}) {show(x)} after sending")
                elif plain(t) is None:
                    raise Fail(f"{mode} {op}({t!r}) is not refused: {show(x)}")
