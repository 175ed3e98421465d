"""C19: RPSPolicer histories against exact rational arithmetic; every request of a limited session passes the policer."""
from core import *
from fractions import Fraction
from agent import *
import gufo.snmp.policer as P
from gufo.snmp.policer import RPSPolicer, BasePolicer

NS = 10 ** 9
RATES = [1, 2, 3, 5, 7, 10, 30, 50, 100, 1000, 0.1, 0.5, 1.5, 2.5, 0.3, 1 / 3, 999.999, 12345.678, 1e6, 3e6, 7e6, 1e8, 3e8, 3.3e8, 4e8, 6e8, 7e8, 9e8, 1e9,
         0.001, 1e-5]


def rate(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(RATES)
    if k == 1:
        return float(r.randrange(1, 10 ** r.randrange(1, 10)))
    return 10 ** r.uniform(-3, 9)


def gen(ctx):
    r = ctx.rng
    for x in [0, 0.0, -0.0, -1, -0.5, -1e-9, float("-inf"), 1.0000001e9, 1.1e9, 2e9, 1e10, 1e18, 1e300, float("inf"), float("nan")]:
        yield "refuse", {"rps": repr(x)}
    for x in RATES:
        for pat in range(6):
            yield "history", {"rps": x, "seed": 5, "n": 400, "pat": pat}
    for d in range(1, 40 if ctx.thorough else 16):
        yield "phases", {"delta": d}
    for mode in ("sync", "async"):
        for cfg in (V1, V2C, V3, AUTH[0], PRIVS[3]):
            for known in (True, False):
                if known or cfg.ver == 3:
                    yield "session", {"cfg": cfg.case(), "mode": mode, "known": known, "how": "policer"}
        yield "session", {"cfg": V2C.case(), "mode": mode, "known": True, "how": "limit"}
        yield "session", {"cfg": AUTH[1].case(), "mode": mode, "known": False, "how": "limit"}
        yield "wait", {"mode": mode, "rps": 4.0, "seed": 1}
        for k in range(3):
            yield "trouble", {"mode": mode, "how": "policer", "cfg": (V1, V2C, V3)[k].case(), "seed": k}
        yield "flood", {"mode": mode, "rps": 100.0, "n": 25}

    def rnd():
        while True:
            yield "history", {"rps": rate(r), "seed": r.randrange(2 ** 60), "n": r.choice([50, 400, 3000]), "pat": r.randrange(8)}

    def ses():
        while True:
            if r.random() < .2:
                yield "trouble", {"cfg": r.choice([V1, V2C, V3]).case(), "mode": r.choice(["sync", "async"]), "how": r.choice(["policer", "limit"]), "seed": r.randrange(2 ** 60)}
            yield "session", {"cfg": r.choice([V1, V2C, V3, AUTH[1], PRIVS[2]]).case(), "mode": r.choice(["sync", "async"]), "known": True, "how": "policer"}
            yield "wait", {"mode": r.choice(["sync", "async"]), "rps": rate(r), "seed": r.randrange(2 ** 60)}
    yield from ctx.spread([rnd(), rnd(), rnd(), rnd(), ses()])


def gaps(r, pat, inv):
    """idle time between a release and the next call, in ns"""
    i = int(inv)
    while True:
        if pat == 0:
            yield 0
        elif pat == 1:
            yield r.randrange(0, i + 1)
        elif pat == 2:
            yield r.choice([0, i - 1, i, i + 1, 2 * i - 1, 2 * i, 1])
        elif pat == 3:
            yield r.choice([0, 0, 0, r.randrange(0, 50 * i + 2)])
        elif pat == 4:
            yield r.randrange(i, 2 * i + 2)
        elif pat == 5:
            yield i * r.randrange(0, 5) + r.choice([0, 1, i - 1 if i else 0])
        elif pat == 6:
            yield r.choice([0] * 20 + [i * r.randrange(0, 10 ** 6)])
        else:
            yield r.choice([0, 1, 2, 3])


def check(rps, calls):
    """calls: [(asked, delay)]; releases are asked + delay"""
    inv = Fraction(NS) / Fraction(rps)
    best = None
    for i, (ts, d) in enumerate(calls):
        if d is not None and (d < 0 or d > inv + 1):
            raise Fail(f"rps {rps!r}: request {i} delayed by {d} ns, one interval is {float(inv)} ns; {calls[max(0, i - 5):i + 1]}")
        rel = ts + (d or 0)
        u = rel - i * inv
        if best is not None and u <= best[0] - inv:
            j = best[1]
            raise Fail(f"rps {rps!r}: requests {j} and {i} released {rel - best[2]} ns apart, must be more than {i - j - 1}/rps = {float((i - j - 1) * inv)} ns; calls (asked, delay) {calls[j:i + 1][:12]}")
        if best is None or u > best[0]:
            best = (u, i, rel)


def run(kind, c):
    if kind == "refuse":
        x = float(c["rps"])
        r = call(RPSPolicer, x)
        if r[0] == "ok":
            raise Fail(f"RPSPolicer({x}) accepted")
        if is_panic(r[1]) or not isinstance(r[1], (ValueError, OverflowError, ArithmeticError)):
            raise Fail(f"RPSPolicer({x}) {show(r)}")
        if x == x and x not in (0,) and abs(x) != float("inf"):
            for S in (SyncSession, AsyncSession):
                r = call(lambda: S("127.0.0.1", limit_rps=x))
                if r[0] == "ok":
                    raise Fail(f"SnmpSession(limit_rps={x}) accepted")
    elif kind == "history":
        rps = c["rps"]
        r = random.Random(c["seed"])
        p = call(RPSPolicer, rps)
        if p[0] != "ok":
            if rps < 1e9 * .999:
                raise Fail(f"RPSPolicer({rps!r}) {show(p)}")
            return
        p = p[1]
        ts = r.choice([0, 1, 12345, 10 ** 15, r.randrange(2 ** 60)])
        calls = []
        for g, _ in zip(gaps(r, c["pat"], NS / rps), range(c["n"])):
            d = p.get_timeout(ts)
            calls.append((ts, d))
            ts += (d or 0) + g
        check(rps, calls)
    elif kind == "phases":
        # every reachable phase of a short interval: breadth first over (time since the slot started) with every idle gap
        import copy
        d = c["delta"]
        rps = NS / d
        p0 = RPSPolicer(rps)
        seen = {}
        todo = [(p0, [], 0)]
        base = 10 ** 6
        while todo:
            p, calls, ts = todo.pop()
            for g in list(range(0, 3 * d + 2)):
                q = copy.copy(p)
                t = ts + g if calls else base
                x = q.get_timeout(t)
                cs = calls + [(t, x)]
                check(rps, cs)
                rel = t + (x or 0)
                k = tuple(sorted((n, rel - v) for n, v in vars(q).items() if isinstance(v, int) and v >= base // 2))
                if k not in seen and len(cs) < 60:
                    seen[k] = 1
                    todo.append((q, cs, rel))
                if not calls:
                    break
    elif kind == "wait":
        wait(c)
    elif kind == "flood":
        flood(c)
    else:
        session(c, kind)


class Count(BasePolicer):
    def __init__(self):
        self.n = 0

    def get_timeout(self, ts):
        self.n += 1
        return None


def session(c, kind):
    cfg = Cfg.of(c["cfg"])
    seen = []
    if c["how"] == "policer":
        pol = Count()
        kw = {"policer": pol}
    else:
        pol = Count()
        kw = {"limit_rps": 1000000}
        orig = RPSPolicer.get_timeout

        def gt(self, ts):
            pol.n += 1
            return orig(self, ts)
        RPSPolicer.get_timeout = gt
    try:
        r = random.Random(c.get("seed", 0))
        trouble = kind == "trouble"

        def hook(ag, d):
            seen.append((pol.n, d))
            if trouble and len(seen) > 2:
                k = r.randrange(6)
                if k == 0:
                    return []                       # no reply: a timeout
                if k == 1:
                    return [b"\x30\x00"]            # does not decode
                o = d["vars"][0][0] if d["vars"] else "1.3"
                if k == 2:
                    return [ag.S.response(d, [B.varbind(o, v_enc([r.choice(["nso", "nsi", "eomv", "null"]), None]))])]
                if k == 3:
                    return [ag.S.response(d, [], status=r.choice([0, 2, 5]))]
        mib = Mib([("1.3.6.1.2.%d.0" % i, ["int", i]) for i in range(1, 9)])
        with Agent(cfg, mib, hook=hook) as ag:
            def mess(api):
                for _ in range(14):
                    op = r.choice(["get", "get", "get_many", "getnext", "getbulk", "bad"])
                    if op == "get":
                        call(api.get, "1.3.6.1.2.1.0")
                    elif op == "bad":
                        call(api.get, "1.3.x")
                    elif op == "get_many":
                        call(api.get_many, ["1.3.6.1.2.1.0", "1.3.6.1.2.2.0"])
                    else:
                        call(api.walk, op, "1.3.6.1.2", *([3] if op == "getbulk" else []))

            def fn(api):
                if trouble:
                    return mess(api)
                api.get("1.3.6.1.2.1.0")
                api.get_many(["1.3.6.1.2.1.0", "1.3.6.1.2.2.0"])
                api.walk("getnext", "1.3.6.1.2")
                api.walk("getbulk", "1.3.6.1.2", 3)
                api.walk("fetch", "1.3.6.1.2") if hasattr(api.s, "fetch") else None
                if cfg.ver == 3:
                    api.refresh()
                api.get("1.3.6.1.2.3.0")
            if trouble:
                drive(c["mode"], ag.port, cfg, fn, True, None, timeout=.06, **kw)
                return counted(c, cfg, seen)
            drive(c["mode"], ag.port, cfg, fn, c["known"], None, **kw)
            if ag.errors:
                raise Fail(f"agent: {ag.errors[0]}")
    finally:
        if c["how"] != "policer":
            RPSPolicer.get_timeout = orig
    counted(c, cfg, seen)
    if len(seen) < 10:
        raise Fail(f"only {len(seen)} requests were sent")


def counted(c, cfg, seen):
    for i, (n, d) in enumerate(seen):
        if n < i + 1:
            raise Fail(f"{c['mode']} {cfg.name()} ({c['how']}): request {i + 1} (PDU {d['ident']:#x}, {[v[0] for v in d['vars']]}) was sent when the policer had been asked {n} times")


def wait(c):
    """wait() / wait_sync() under a simulated clock: the time slept is the delay granted"""
    rps = c["rps"]
    p = call(RPSPolicer, rps)
    if p[0] != "ok":
        return
    p = p[1]
    r = random.Random(c["seed"])
    now = [10 ** 9 + r.randrange(10 ** 9)]
    import asyncio as aio
    for n in ("perf_counter_ns", "sleep", "asyncio"):
        if not hasattr(P, n):
            raise Skip(f"policer.{n}")
    o1, o2, o3 = P.perf_counter_ns, P.sleep, aio.sleep

    def slp(x, *a):
        if x < 0:
            raise Fail(f"sleep({x})")
        now[0] += round(x * NS)

    async def aslp(x, *a):
        slp(x)
    rel = []
    g = gaps(r, r.randrange(7), NS / rps)
    P.perf_counter_ns = lambda: now[0]
    P.sleep, P.asyncio.sleep = slp, aslp
    try:
        loop = aio.new_event_loop()
        for _ in range(30):
            t0 = now[0]
            if c["mode"] == "sync":
                p.wait_sync()
            else:
                # no event loop is needed: nothing really waits
                co = p.wait()
                try:
                    co.send(None)
                except StopIteration:
                    pass
                else:
                    raise Skip("wait() suspended")
            rel.append((t0, now[0] - t0))
            now[0] += next(g)
        loop.close()
    finally:
        P.perf_counter_ns, P.sleep, P.asyncio.sleep = o1, o2, o3
    # seconds as floating point: allow for its rounding
    inv = Fraction(NS) / Fraction(rps)
    for i, (t, d) in enumerate(rel):
        if d > inv + 2 + inv / 10 ** 6:
            raise Fail(f"{c['mode']} rps {rps!r}: slept {d} ns, one interval is {float(inv)} ns")
        for j in range(i):
            sp = t + d - rel[j][0] - rel[j][1]
            if sp + 2 * (i - j) + inv / 10 ** 6 <= (i - j - 1) * inv:
                raise Fail(f"{c['mode']} rps {rps!r}: {i - j + 1} releases within {sp} ns")


def flood(c):
    """wall clock: the time between asking for the first and the release of the last request is at least (n - 2) intervals"""
    pol = RPSPolicer(c["rps"])
    t0 = time.monotonic()
    if c["mode"] == "sync":
        for _ in range(c["n"]):
            pol.wait_sync()
    else:
        loop = asyncio.new_event_loop()

        async def go():
            for _ in range(c["n"]):
                await pol.wait()
        loop.run_until_complete(go())
        loop.close()
    dt = time.monotonic() - t0
    # the event loop may wake up early by its clock resolution
    if dt < (c["n"] - 2) / c["rps"] - .002:
        raise Fail(f"{c['n']} requests at {c['rps']} rps released within {dt:.4f} s")
