"""C18: arrival schedules of unwanted datagrams against the wall clock; anything suspicious is confirmed three times, alone."""
from core import *
from agent import *
from gufo.snmp.policer import BasePolicer

SLACK = 0.75
NET = [V1, V2C, V3, AUTH[0], AUTH[1], PRIVS[1], PRIVS[2]]


def gen(ctx):
    r = ctx.rng

    def one():
        mode = r.choice(["sync", "async"])
        t = r.choice([0.3, 0.5, 0.8])
        step = r.choice([0.02, 0.1, 0.2]) if t > .3 else r.choice([0.02, 0.1])
        steps = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(4)
            if k == 0:
                steps.append({"what": "silent"})
            elif k == 1:
                steps.append({"what": "flood", "step": step, "stray": r.randrange(8)})
            elif k == 2 and r.random() < .3:
                steps.append({"what": "reply", "at": round(t * .4, 3), "step": 0, "burst": r.choice([3, 17, 65, 130]), "stray": r.randrange(8)})
            elif k == 2:
                steps.append({"what": "reply", "at": round(t * r.choice([0, .2, .45]), 3), "step": step, "stray": r.randrange(8)})
            elif r.random() < .4:
                steps.append({"what": "gust", "burst": r.choice([3, 20, 40, 90, 150]), "stray": r.randrange(8)})
            else:
                steps.append({"what": "late", "step": step, "stray": r.randrange(8)})
        if r.random() < .12:
            return entry(r)
        return {"cfg": r.choice(NET).case(), "mode": mode, "timeout": t, "op": r.choice(["get", "get_many", "getnext", "getbulk", "fetch"]), "steps": steps,
                "opts": options(r)}
    base = []
    for cfg in (V1, V2C, V3, AUTH[1], PRIVS[3]):
        for mode in ("sync", "async"):
            base.append({"cfg": cfg.case(), "mode": mode, "timeout": 0.4, "op": "get", "steps": [{"what": "flood", "step": 0.1, "stray": len(base)}]})
            base.append({"cfg": cfg.case(), "mode": mode, "timeout": 0.6, "op": "getnext", "steps": [
                {"what": "reply", "at": 0.27, "step": 0.05, "stray": len(base)}, {"what": "reply", "at": 0.27, "step": 0, "stray": 0}, {"what": "silent"}]})
    for op in ("get", "get_many", "getnext", "getbulk"):
        base.append({"cfg": V2C.case(), "mode": "sync", "timeout": 0.3, "op": op, "steps": [{"what": "flood", "step": 0.02, "stray": 1}, {"what": "flood", "step": 0.1, "stray": 0}]})
        base.append({"cfg": V2C.case(), "mode": "async", "timeout": 0.3, "op": op, "steps": [{"what": "silent"}, {"what": "flood", "step": 0.02, "stray": 0}]})
        base.append({"cfg": r.choice([V1, V2C, V3]).case(), "mode": "sync", "timeout": 0.3, "op": op, "steps": [{"what": "gust", "burst": 120, "stray": 1}]})
    for mode in ("sync", "async"):
        base.append({"cfg": AUTH[0].case(), "mode": mode, "timeout": 0.4, "op": "refresh", "steps": [{"what": "flood", "step": 0.1, "stray": 2}, {"what": "silent"}]})
    for t in (0.0, 1e-9, 5e-7, 1e-6, 1e-4, 0.01):
        for mode in ("sync", "async"):
            base.append({"cfg": V2C.case(), "mode": mode, "timeout": t, "op": "get", "steps": [{"what": "silent"}, {"what": "flood", "step": 0.05, "stray": 0}]})
    for op in ("get", "get_many", "getnext", "getbulk", "fetch"):
        for mode in ("sync", "async"):
            base.append({"cfg": r.choice([V1, V2C, AUTH[0]]).case(), "mode": mode, "timeout": 0.3, "op": op, "opts": {"policer": len(base) % 3},
                         "steps": [{"what": "silent"}, {"what": "reply", "at": 0.1, "step": 0, "burst": 70, "stray": len(base)}]})
    for k in range(6):
        base.append(entry(r, k))
    for mode in ("sync", "async"):
        base.append({"cfg": V2C.case(), "mode": mode, "timeout": 1.7, "op": "get", "steps": [
            {"what": "reply", "at": 1.2, "step": 0.3, "stray": 1}, {"what": "reply", "at": 1.45, "step": 0, "stray": 0}]})
    for k in range(4):
        yield "storm", {"cfg": PRIVS[2 * (k % 2)].case(), "mode": ["async", "async", "sync", "async"][k], "timeout": 0.5, "op": ["get", "get_many", "getnext", "getbulk"][k]}
    r.shuffle(base)
    for i in range(0, len(base), 12):
        yield "batch", {"cases": base[i:i + 12]}
    while ctx.left() > 3:
        yield "batch", {"cases": [one() for _ in range(12)]}


def options(r):
    o = {"policer": r.choice([0, 0, 1, 2])}
    if r.random() < .3:
        o.update(r.choice([{"send_buffer": 32768}, {"recv_buffer": 65536}, {"tos": 8}, {"max_repetitions": 1}, {"max_repetitions": 50}, {"allow_bulk": False}]))
    return o


def entry(r, k=None):
    """entering a v3 session: discovery and time synchronisation, each of which is one request"""
    if k is None:
        k = r.randrange(6)
    return {"entry": True, "cfg": r.choice([AUTH[0], AUTH[1], PRIVS[1], PRIVS[3]]).case(), "mode": ["sync", "async"][k % 2], "timeout": r.choice([.3, .4]),
            "fail_at": k // 2 % 2, "known": k >= 4, "what": r.choice(["silent", "flood"]), "step": .05, "stray": r.randrange(8)}


class NoPolicer(BasePolicer):
    def get_timeout(self, ts):
        return None


def kwargs(o):
    o = dict(o or {})
    p = o.pop("policer", 0)
    if p == 1:
        o["limit_rps"] = 2000.0
    if p == 2:
        o["policer"] = NoPolicer()
    return o


def strays(ag, d, k):
    """a well-formed datagram which is no answer to d"""
    S = ag.S
    vb = [B.varbind((d["vars"] or [["1.3.6.1"]])[0][0] + ".1", v_enc(["int", 666]))]
    v3 = d["version"] == 3
    k = k % 8
    if not v3:
        if k % 3 == 0:
            return S.response(d, vb, rid=d["id"] ^ 1)
        if k % 3 == 1:
            return S.response(d, vb, community=b"other")
        return S.response(d, vb, rid=(d["id"] + 77) & 0x7FFFFFFF)
    if k % 4 == 0:
        return S.response(d, vb, rid=d["id"] ^ 1)
    if k % 4 == 1:
        return S.response(d, vb, msg_id=d["msg_id"] ^ 1)
    if k % 4 == 2:
        return S.response(d, vb, user=b"nobody")
    if S.cfg.auth:
        return S.response(d, vb, key=bytes(len(S.kul)))
    return S.response(d, vb, engine=b"elsewhere")


STORM = """
import socket, sys, time
s = socket.socket(fileno=int(sys.argv[1]))
d = bytes.fromhex(sys.stdin.read())
a = ("127.0.0.1", int(sys.argv[2]))
e = time.monotonic() + float(sys.argv[3])
f = s.sendto
while time.monotonic() < e:
    try:
        for _ in range(200):
            f(d, a)
    except OSError:
        time.sleep(.001)
"""


def storm(c):
    """unwanted datagrams as fast as other processes can send them"""
    import subprocess
    cfg, t = Cfg.of(c["cfg"]), c["timeout"]
    procs = []

    def hook(ag, d):
        if not procs:
            m = ag.S.response(d, [B.varbind("1.3.6.1.5.1", v_enc(["bytes", bytes(3600)]))], key=bytes(len(ag.S.kul)))
            for _ in range(c["procs"]):
                p = subprocess.Popen([sys.executable, "-S", "-c", STORM, str(ag.sock.fileno()), str(ag.peer[1]), str(t + 5 * SLACK)],
                                     stdin=subprocess.PIPE, stderr=subprocess.DEVNULL, pass_fds=[ag.sock.fileno()])
                procs.append(p)
                p.stdin.write(m.hex().encode())
                p.stdin.close()
        return []
    try:
        with Agent(cfg, Mib([]), hook=hook) as ag:
            def fn(api):
                t0 = time.monotonic()
                x = call({"get": lambda: api.get("1.3.6.1.5.0"), "get_many": lambda: api.get_many(["1.3.6.1.5.0"])}.get(
                    c["op"], lambda: Walk(api, c["op"], "1.3.6.1.5").next()))
                return x, time.monotonic() - t0
            x, dt = drive(c["mode"], ag.port, cfg, fn, True, False, timeout=t)
            w = f"{c['mode']} {cfg.name()} {c['op']}, timeout {t} s, a storm of unwanted datagrams: {show(x)} after {dt:.2f} s"
            if x[0] == "ok" or is_panic(x[1]) or not isinstance(x[1], TimeoutError):
                raise Fail(f"{w}, expected TimeoutError")
            if dt > t + SLACK:
                raise Fail(f"{w}, later than the timeout")
    finally:
        for p in procs:
            p.kill()
            p.wait()


def run(kind, c):
    if kind == "storm":
        bad = 0
        for n in (1, 3, 2, 1):      # a delay is confirmed by another one
            try:
                storm({**c, "procs": n})
            except Fail:
                bad += 1
                if bad == 2:
                    raise
                time.sleep(.3)
            else:
                if n == 3 and not bad:
                    break
        return
    if kind == "one":
        cases = [c]
    else:
        cases = c["cases"]
    bad = [None] * len(cases)

    def go(i):
        try:
            one(cases[i])
        except Fail as e:
            bad[i] = str(e)
        except BaseException as e:
            bad[i] = e
    ths = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(cases))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for i, b in enumerate(bad):
        if b is None:
            continue
        if not isinstance(b, str):
            raise b
        # confirm, alone
        try:
            one(cases[i])
        except Fail:
            try:
                time.sleep(0.2)
                one(cases[i])
            except Fail as e2:
                raise Fail(f"{e2} (confirmed three times; schedule {json.dumps(enc(cases[i]))})")


def one_entry(c):
    cfg, t, seen = Cfg.of(c["cfg"]), c["timeout"], []
    done = []

    def hook(ag, d):
        seen.append(d)
        if c["known"] or len(seen) > c["fail_at"]:
            if c["what"] == "silent":
                return []
            return flood(ag, d)
        return None

    def flood(ag, d):
        end = time.monotonic() + 2 * t + 2 * SLACK + .5
        k = c["stray"]
        while time.monotonic() < end and not done and not ag.stop:
            k += 1
            d2 = dict(d)
            yield ag.S.response(d2, [], user=b"nobody", msg_id=d["msg_id"] ^ (k % 2))
            yield c["step"]
    with Agent(cfg, Mib([]), hook=hook) as ag:
        t0 = time.monotonic()
        x = call(lambda: drive(c["mode"], ag.port, cfg, lambda api: "entered", c["known"], timeout=t))
        dt = time.monotonic() - t0
        done.append(1)
        w = f"{c['mode']} {cfg.name()} entering the session, timeout {t} s, {c['what']} from request {len(seen)} on: {show(x)} after {dt:.2f} s"
        if x[0] == "ok" or is_panic(x[1]) or not isinstance(x[1], TimeoutError):
            raise Fail(f"{w}, expected TimeoutError")
        if dt > len(seen) * t + SLACK:
            raise Fail(f"{w}, later than the timeout")


def one(c):
    if c.get("entry"):
        return one_entry(c)
    cfg = Cfg.of(c["cfg"])
    t = c["timeout"]
    cur = {"n": None}
    op = c["op"]
    base = "1.3.6.1.5"

    def answer(ag, d, n):
        if op == "refresh":
            return [ag.S.response(d, [])]
        o = d["vars"][0][0]
        if op in ("getnext", "getbulk", "fetch"):
            o = o + ".1"
        return [ag.S.response(d, [B.varbind(o, v_enc(["int", 1000 + n]))])]

    def hook(ag, d):
        n = cur["n"]
        if n is None:
            return None         # entering the session
        s = c["steps"][n]
        if s["what"] == "silent":
            return []
        out, at = [], 0.0
        if s["what"] == "reply":
            for j in range(s.get("burst", 0)):
                out += [strays(ag, d, s["stray"] + j)] + ([0.002] if j % 16 == 15 else [])
            while s["step"] and at + s["step"] < s["at"]:
                out += [strays(ag, d, s["stray"] + len(out)), s["step"]]
                at += s["step"]
            return out + [max(0.0, s["at"] - at)] + answer(ag, d, n)
        if s["what"] == "gust":         # many at once, then silence
            for j in range(s["burst"]):
                out += [strays(ag, d, s["stray"] + j)] + ([0.002] if j % 16 == 15 else [])
            return out
        if s["what"] == "flood":
            while at < t + 2 * SLACK + .5:
                out += [strays(ag, d, s["stray"] + len(out)), s["step"]]
                at += s["step"]
            return stoppable(ag, out, n)
        out = [strays(ag, d, s["stray"]), s["step"], strays(ag, d, s["stray"] + 1)]
        return out + [t + .3 - s["step"]] + answer(ag, d, n)

    def stoppable(ag, out, n):
        for x in out:
            if cur["n"] != n or ag.stop:
                return
            yield x
    with Agent(cfg, Mib([]), hook=hook) as ag:
        def fn(api):
            it = None
            if op in ("getnext", "getbulk", "fetch"):
                it = Walk(api, op, base)
            for n, s in enumerate(c["steps"]):
                cur["n"] = n
                t0 = time.monotonic()
                if op == "get":
                    x = call(api.get, base + ".0")
                    exp = 1000 + n
                elif op == "get_many":
                    x = call(api.get_many, [base + ".0"])
                    exp = {base + ".0": 1000 + n}
                elif op == "refresh":
                    x = call(api.refresh)
                    exp = None
                else:
                    x = call(it.next)
                    exp = None
                    if x[0] == "ok":
                        exp = x[1] if x[1][1] == 1000 + n else "the reply to this request"
                    elif not isinstance(x[1], TimeoutError):
                        it = Walk(api, op, base)
                dt = time.monotonic() - t0
                cur["n"] = -1
                w = f"{c['mode']} {cfg.name()} {op}, timeout {t} s, {s}: {show(x)} after {dt:.2f} s"
                if s["what"] == "reply":
                    if x[0] != "ok" or not same(x[1], exp):
                        raise Fail(f"{w}, expected the matching reply, sent {s['at']} s after the request")
                else:
                    if x[0] == "ok" or is_panic(x[1]) or not isinstance(x[1], TimeoutError):
                        raise Fail(f"{w}, expected TimeoutError")
                if dt > t + SLACK:
                    raise Fail(f"{w}, later than the timeout")
                # the agent is ready again (a late reply has then been sent)
                end = time.monotonic() + t + 3
                while ag.busy and time.monotonic() < end:
                    time.sleep(.005)
        # entering the session has to succeed even when the timeout under test is tiny
        drive(c["mode"], ag.port, cfg, fn, True, cfg.ver == 3, timeout=t, **kwargs(c.get("opts")))
    if ag.errors:
        raise Fail(f"agent: {ag.errors[0]}")


class Walk:
    def __init__(self, api, op, base):
        self.api = api
        it = getattr(api.s, op)(base)
        self.it = it.__aiter__() if isinstance(api, AsyncApi) else iter(it)

    def next(self):
        if isinstance(self.api, AsyncApi):
            return self.api._r(self.it.__anext__())
        return next(self.it)
