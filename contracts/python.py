"""Contracts of the Python layer (src/gufo/snmp), checked by lib/pyvc.py.  What is outside of it:

* sock.*: the methods of the extension's sockets.  Their contracts are those proved for the Rust code (contracts/6*.vc): one
  exchange per call, BlockingIOError when nothing was received in time, send_* never raises BlockingIOError;
* time, asyncio (event loop, futures, wait_for with cancellation at awaits), the builtins used: assumed, as written here.
"""
import ast
import z3
from pyvc import (B, By, Cls, Co, Contract, E, Enum, Exc, Exec, F, Fmt, I, Lost, NONE, NoneV, O, R, Raise, St, Str, Tup, U, Uni, Unsupported, X,
                  exc_mro, fresh, lift, nv, opaque, same, simp)

NSR = z3.RealVal(10 ** 9)
TRUTH = z3.Function("truth", Uni, z3.BoolSort())
LISTOF = z3.Function("list_of", Uni, Uni)
FD = z3.Function("fd_of", z3.IntSort(), Uni)
uid = [0]

ASSUMED = [
    "the Python subset is executed as lib/pyvc.py defines it; float operations are reals with one relative rounding error of 2^-53 each "
    "(no overflow, no subnormal results), NaN and infinities are left to the concrete stand-in",
    "time.sleep / asyncio.sleep return not before the given time, perf_counter_ns does not go back, wait_for cancels at the deadline",
    "loop.add_reader wakes the callback when the descriptor is readable; a UDP socket is writable without delay",
    "the contracts of the extension's methods (proved for the Rust code, contracts/60_socket.vc .. 62_v3sock.vc) hold across the pyo3 boundary",
    "a policer given by the user: truthy, its wait()/wait_sync() return and raise nothing; its get_timeout returns None or an int",
]

SOCK_EXC = ["BlockingIOError", "TimeoutError", "OSError", "ValueError", "NoSuchInstance", "SnmpError", "SnmpDecodeError", "SnmpEncodeError",
            "SnmpAuthError", "RuntimeError", "NotImplementedError"]
ITER_EXC = ["StopAsyncIteration"]


def new_uid():
    uid[0] += 1
    return uid[0]


def ext(name, **k):
    return X(name=name, uid=new_uid(), **k)


def item(e):
    return U(e=e, t=TRUTH(e), ln=fresh("len", z3.IntSort()))


def some(name):
    """an arbitrary value other than None"""
    v = opaque(name)
    return v


def adv(s):
    """time passes"""
    s = s.copy()
    c = fresh("clk", z3.RealSort())
    s.pc += [c >= s.clk]
    if s.ghost.get("deadline") is not None:
        s.pc.append(c <= s.ghost["deadline"])
    s.clk = c
    return s


def now(s, t):
    s = s.copy()
    s.clk = t
    return s


class Ext:
    item = staticmethod(item)

    def fast(self, name):
        if name in SNMP or name == "PySnmpError":
            return Exc(name=name)
        return X(name="fast." + name)

    def attr(self, x, s, v, name):
        if v.name == "sock" or v.name == "policer":
            return [(s, X(name=f"{v.name}.{name}", me=v, uid=v.uid))]
        if v.name in ("future", "loop"):
            return [(s, X(name=f"{v.name}.{name}", me=v, uid=v.uid))]
        full = f"{v.name}.{name}"
        if full in ("asyncio.TimeoutError",):
            return [(s, Exc(name="TimeoutError"))]
        if full == "asyncio.CancelledError":
            return [(s, Exc(name="CancelledError"))]
        if full in KNOWN:
            return [(s, X(name=full))]
        raise Unsupported(f"{full}")

    def getattr(self, x, s, v, o, name):
        if o["ext"] == "policer":
            return [(s, X(name=f"policer.{name}", me=v, uid=v.ref))]
        raise Unsupported(name)

    # ------------------------------------------------------------ calls
    def call(self, x, s, f, pos, kw):
        n = f.name
        if n.startswith("builtins."):
            return self.builtin(x, s, n[9:], pos, kw)
        if n.startswith("sock."):
            return self.sock(x, s, f, n[5:], pos, kw)
        if n == "receiver":
            return self.outcomes(s, ("receiver", f.uid), SOCK_EXC + ITER_EXC, quiet=("BlockingIOError",))
        if n == "sender":
            return self.outcomes(s, ("sender", f.uid), SOCK_EXC, quiet=("BlockingIOError",), none=True)
        if n == "policer.wait_sync":
            return [(adv(s).ev("policer.wait", f.uid), nv)]
        if n == "policer.get_timeout":
            return self.any_timeout(s, pos)
        if n == "policer.wait":
            return [(s, X(name="aw.policer", uid=f.uid))]
        if n in ("time.perf_counter_ns", "time.monotonic_ns"):
            s = adv(s)
            t = fresh("ts", z3.IntSort())
            s.pc.append(z3.ToReal(t) == s.clk)
            s.ghost["ts"] = t
            return [(s, I(e=t))]
        if n == "time.sleep":
            return self.sleep(x, s, pos)
        if n == "asyncio.sleep":
            return [(s, X(name="aw.sleep", arg=pos))]
        if n in ("asyncio.get_running_loop", "asyncio.get_event_loop"):
            return [(s, X(name="loop", uid=0))]
        if n == "asyncio.wait_for":
            t = pos[1] if len(pos) > 1 else kw.get("timeout")
            if t is None:
                raise Unsupported("wait_for")
            return [(s, X(name="aw.wait_for", co=pos[0] if pos else kw.get("fut"), timeout=t))]
        if n == "loop.create_future":
            return [(s, ext("future"))]
        if n in ("loop.add_reader", "loop.add_writer"):
            s = s.copy()
            key = (n[9:], str(simp(pos[0].e)) if isinstance(pos[0], (U, I)) else repr(pos[0]))
            s.ghost["registered"] = tuple(r for r in s.ghost.get("registered", ()) if r[0] != key) + ((key, pos[1], tuple(pos[2:])),)
            return [(s, nv)]
        if n in ("loop.remove_reader", "loop.remove_writer"):
            s = s.copy()
            key = (n[12:], str(simp(pos[0].e)) if isinstance(pos[0], (U, I)) else repr(pos[0]))
            s.ghost["registered"] = tuple(r for r in s.ghost.get("registered", ()) if r[0] != key)
            return [(s, B(e=z3.BoolVal(True)))]
        if n in ("future.set_result", "future.set_exception"):
            if len(pos) != 1:
                return [(s, x.raises("TypeError"))]
            s = s.copy()
            if ("fut", f.uid) in s.ghost:
                return [(s, x.raises("RuntimeError"))]
            s.ghost["fut", f.uid] = ("res" if n.endswith("result") else "exc", pos[0])
            return [(s, nv)]
        if n in ("future.done",):
            return [(s, B(e=z3.BoolVal(("fut", f.uid) in s.ghost)))]
        if n.startswith("fast.Snmp") and n.endswith("ClientSocket"):
            k = ext("sock", kind=n[5:])
            return self.outcomes(s, ("new", n[5:], tuple(pos), k), ["OSError", "ValueError"], value=k)
        if n == "fast.GetIter":
            k = ext("iter")
            return self.outcomes(s, ("iter", tuple(pos), k), ["ValueError", "SnmpDecodeError"], value=k)
        if n in ("fast.get_master_key", "fast.get_localized_key"):
            return self.outcomes(s, (n[5:], tuple(pos)), ["ValueError"])
        if n == "collections.deque" and len(pos) == 1 and isinstance(pos[0], O) and "list" in s.heap[pos[0].ref]:
            s = s.copy()
            return [(s, O(ref=s.new(**s.heap[pos[0].ref])))]
        if n == "collections.deque" and not pos:
            s = s.copy()
            return [(s, O(ref=s.new(list=True, arr=z3.K(z3.IntSort(), NONE), lo=z3.IntVal(0), n=z3.IntVal(0))))]
        if n.startswith("list."):
            return self.list(x, s, f.me, n[5:], pos)
        raise Unsupported(f"call of {n}")

    def outcomes(self, s, event, excs, quiet=(), none=False, value=None):
        """the call happens once, returns something or raises one of excs"""
        out = []
        s = adv(s) if event[0] in BLOCKING else s
        r = nv if none else (value if value is not None else opaque(event[0]))
        out.append((s.ev(*event, ("ret", r)), r))
        for n in excs:
            e = E(name=n, cause=None, args=(), uid=new_uid())
            s2 = s.copy()
            s2.ghost["quiet"] = s2.ghost.get("quiet", 0) + (n in quiet)
            out.append((s2 if n in quiet else s2.ev(*event, ("exc", e)), Raise(e=e)))
        return out

    def sock(self, x, s, f, name, pos, kw):
        if kw:
            raise Unsupported("keyword argument of an extension method")
        if name == "get_fd":
            return [(s, item(FD(z3.IntVal(f.uid))))]
        ev = ("sock." + name, f.uid, tuple(pos))
        it = ITER_EXC if name.endswith(("get_next", "get_bulk")) else []
        if name == "get_engine_id":
            return self.outcomes(s, ev, [])
        if name == "set_keys":
            return self.outcomes(s, ev, ["ValueError"], none=True)
        if name.startswith("send_"):
            return self.outcomes(s, ev, [e for e in SOCK_EXC if e != "BlockingIOError"], none=True)
        if name in ("get_bulk", "recv_get_bulk"):
            s = adv(s) if name == "get_bulk" else s
            s1 = s.copy()
            n = fresh("items", z3.IntSort())
            o = O(ref=s1.new(list=True, arr=fresh("arr", z3.ArraySort(z3.IntSort(), Uni)), lo=fresh("lo", z3.IntSort()), n=n))
            s1.pc.append(n >= 0)
            return [(s1.ev(*ev, ("ret", o)), o)] + self.outcomes(s, ev, SOCK_EXC + it, quiet=("BlockingIOError",) if name[0] == "r" else ())[1:]
        if name in ("get", "get_many", "get_next", "refresh"):
            return self.outcomes(s, ev, SOCK_EXC + it)
        if name in ("recv_get", "recv_get_many", "recv_get_next", "recv_refresh"):
            return self.outcomes(s, ev, SOCK_EXC + it, quiet=("BlockingIOError",))
        return [(s, x.raises("AttributeError"))]

    def any_timeout(self, s, pos):
        if len(pos) != 1 or not isinstance(pos[0], I):
            raise Unsupported("get_timeout")
        r = fresh("delay", z3.IntSort())
        a = s.ev("get_timeout", pos[0], nv)
        b = s.ev("get_timeout", pos[0], I(e=r))
        return [(a, nv), (b, I(e=r))]

    def sleep(self, x, s, pos):
        v = x.num(pos[0])
        if not isinstance(v, (I, R)):
            return [(s, x.raises("TypeError"))]
        e = x.real(v)
        out = []
        for s2, neg in x.fork(s, e < 0):
            if neg:
                out.append((s2, x.raises("ValueError")))
                continue
            c0 = s2.clk
            s3 = adv(s2)
            s3.pc.append(s3.clk >= c0 + e * NSR)
            out.append((s3.ev("sleep", e), nv))
        return out

    def builtin(self, x, s, n, pos, kw):
        if n == "int" and len(pos) == 1:
            v = x.num(pos[0])
            if isinstance(v, I):
                return [(s, v)]
            if isinstance(v, R):
                r = fresh("trunc", z3.IntSort())
                return [(s.assume(z3.If(v.e >= 0, z3.And(z3.ToReal(r) <= v.e, v.e < z3.ToReal(r) + 1), z3.And(z3.ToReal(r) >= v.e, v.e > z3.ToReal(r) - 1))), I(e=r))]
        if n == "float" and len(pos) == 1:
            v = x.num(pos[0])
            if isinstance(v, (I, R)):
                s, r = x.tofloat(s, v)
                return [(s, R(e=r))]
        if n in ("list", "tuple") and len(pos) == 1 and isinstance(pos[0], U):
            return [(s, item(LISTOF(pos[0].e)))]
        if n == "len" and len(pos) == 1:
            v = pos[0]
            if isinstance(v, By):
                return [(s, lift(len(v.b)))]
            if isinstance(v, U):
                return [(s.assume(v.ln >= 0, z3.Implies(v.e != NONE, v.t == (v.ln != 0))), I(e=v.ln))]
            if isinstance(v, O) and "list" in s.heap[v.ref]:
                return [(s, I(e=s.heap[v.ref]["n"]))]
        if n == "divmod" and len(pos) == 2 and all(isinstance(x.num(p), I) for p in pos):
            a, b = x.num(pos[0]), x.num(pos[1])
            return x.bind(x.arith(s, ast.FloorDiv(), a, b), lambda s2, q: [(s2, Tup(items=[q, I(e=a.e - q.e * b.e)]))])
        if n == "abs" and len(pos) == 1 and isinstance(x.num(pos[0]), (I, R)):
            v = x.num(pos[0])
            return [(s, type(v)(e=z3.If(v.e >= 0, v.e, -v.e)))]
        if n == "bool" and len(pos) == 1:
            return [(s, B(e=x.truth(pos[0], s)))]
        if n in ("max", "min") and len(pos) == 2 and all(isinstance(x.num(p), (I, R)) for p in pos):
            a, b = x.num(pos[0]), x.num(pos[1])
            if type(a) is type(b):
                c = a.e >= b.e if n == "max" else a.e <= b.e
                return [(s, type(a)(e=z3.If(c, a.e, b.e)))]
        if n == "isinstance" and len(pos) == 2:
            ts = pos[1].items if isinstance(pos[1], Tup) else [pos[1]]
            return [(s, B(e=z3.BoolVal(any(self.isinst(x, s, pos[0], t) for t in ts))))]
        raise Unsupported(f"{n}{pos!r}")

    def isinst(self, x, s, v, t):
        if isinstance(t, X) and t.name.startswith("fast."):
            if isinstance(v, X) and v.name == "sock":
                return v.kind == t.name[5:]
            raise Unsupported("isinstance")
        if isinstance(t, Cls) and isinstance(v, O) and "cls" in s.heap[v.ref]:
            return any(k.node is t.node for k in x.mro(s.heap[v.ref]["cls"]))
        if isinstance(v, NoneV):
            return False
        raise Unsupported("isinstance")

    def list(self, x, s, me, name, pos):
        o = s.heap[me.ref]
        if name == "popleft" and not pos:
            return self.list(x, s, me, "pop", [lift(0)])
        if name == "pop" and (not pos or isinstance(pos[0], I)):
            k = simp(pos[0].e) if pos else None
            if k is not None and z3.is_int_value(k) and k.as_long() == 0:
                out = []
                for s2, ok in x.fork(s, o["n"] > 0):
                    if not ok:
                        out.append((s2, x.raises("IndexError")))
                        continue
                    s2 = s2.copy()
                    o2 = s2.heap[me.ref]
                    e = z3.Select(o2["arr"], o2["lo"])
                    o2["lo"], o2["n"] = o2["lo"] + 1, o2["n"] - 1
                    out.append((s2, item(e)))
                return out
            if k is None or (z3.is_int_value(k) and k.as_long() == -1):
                out = []
                for s2, ok in x.fork(s, o["n"] > 0):
                    if not ok:
                        out.append((s2, x.raises("IndexError")))
                        continue
                    s2 = s2.copy()
                    o2 = s2.heap[me.ref]
                    e = z3.Select(o2["arr"], o2["lo"] + o2["n"] - 1)
                    o2["n"] = o2["n"] - 1
                    out.append((s2, item(e)))
                return out
        if name == "clear" and not pos:
            s = s.copy()
            s.heap[me.ref]["n"] = z3.IntVal(0)
            return [(s, nv)]
        raise Unsupported(f"list.{name}")

    # ------------------------------------------------------------ awaits
    def await_(self, x, s, v):
        if v.name == "aw.policer":
            return [(s2, r) for s2, r in self.suspended(x, s) if isinstance(r, Raise)] + [(adv(s).ev("policer.wait", v.uid), nv)]
        if v.name == "aw.sleep":
            return self.sleep(x, s, v.arg)
        if v.name == "aw.wait_for":
            return self.wait_for(x, s, v)
        if v.name == "future":
            return self.future(x, s, v)
        raise Unsupported(f"await {v.name}")

    def suspended(self, x, s):
        """the task is cancelled at this await when its deadline comes"""
        d = s.ghost.get("deadline")
        if d is None:
            return []
        return [(now(s.assume(d >= s.clk), d), x.raises("CancelledError", uid="deadline"))]

    def wait_for(self, x, s, v):
        t = x.num(v.timeout)
        if isinstance(t, NoneV):
            return x.await_(s, v.co)
        if not isinstance(t, (I, R)):
            raise Unsupported("timeout")
        old, d = s.ghost.get("deadline"), s.clk + x.real(t) * NSR
        s = s.copy()
        s.ghost["deadline"] = d if old is None else z3.If(old <= d, old, d)
        out = []
        for s2, r in x.await_(s, v.co):
            s2 = s2.copy()
            s2.ghost["deadline"] = old
            if isinstance(r, Raise) and r.e.name == "CancelledError":
                for s3, outer in ([(s2, False)] if old is None else x.fork(s2, old <= d)):
                    out.append((s3, r if outer else x.raises("TimeoutError", uid="deadline")))
            else:
                out.append((s2, r))
        return out

    def future(self, x, s, fut):
        out = self.suspended(x, s)
        k = ("fut", fut.uid)
        if k in s.ghost:
            how, val = s.ghost[k]
            return [(s, val if how == "res" else Raise(e=val))]
        done = False
        for key, cb, args in s.ghost.get("registered", ()):
            s1 = adv(s)
            s1.ghost["woken"] = s1.ghost.get("woken", ()) + (key,)
            for s2, r in x.call(s1, cb, list(args), {}):
                if k in s2.ghost:
                    done = True
                    how, val = s2.ghost[k]
                    out.append((s2, val if how == "res" else Raise(e=val)))
        if not done:
            x.obl.append(("an awaited future is resolved by a registered callback", s, z3.BoolVal(False)))
        return out


SNMP = ("SnmpError", "SnmpDecodeError", "SnmpEncodeError", "NoSuchInstance", "SnmpAuthError")
BLOCKING = ("sock.get", "sock.get_many", "sock.get_next", "sock.get_bulk", "sock.refresh")
KNOWN = ("asyncio.sleep", "asyncio.wait_for", "asyncio.get_running_loop", "asyncio.get_event_loop", "time.sleep", "time.perf_counter_ns",
         "time.monotonic_ns")
EXT = Ext()
CONTRACTS = {}


def contract(qual, props, model=None):
    def deco(f):
        CONTRACTS[qual] = Contract(qual, props, f, model)
        return f
    return deco


def T(b):
    return z3.BoolVal(bool(b))


def obj(x, s, cls, **fields):
    return O(ref=s.new(cls=x.cls(cls) if isinstance(cls, str) else cls, fields=fields))


def fields(s, o):
    return s.heap[o.ref]["fields"]


def method(x, s, me, name):
    f = x.method(s.heap[me.ref]["cls"] if isinstance(me, O) else me.cls, name)
    if f is None:
        raise Lost(f"no method {name}")
    g, _ = x.bound(f, me, s)
    return g


def names(trace):
    return [e[0] for e in trace]


def is_exc(v, name):
    return isinstance(v, Raise) and v.e.name == name


def same_all(a, b):
    return z3.And([same(p, q) for p, q in zip(a, b)]) if len(a) == len(b) else T(False)


# ================================================================== C19: the policer
def policer_inv(prev, delta, last):
    """the slot of the latest release: prev <= last release < prev + delta"""
    return z3.And(delta > 0, prev <= last, last < prev + delta)


@contract("policer.RPSPolicer.get_timeout", ["C19"])
def _(x):
    for first in (True, False):
        s = St()
        ts, delta = fresh("ts", z3.IntSort()), fresh("delta", z3.IntSort())
        s.pc.append(delta > 0)
        prev = last = None
        if not first:
            prev, last = fresh("prev", z3.IntSort()), fresh("last", z3.IntSort())
            s.pc += [policer_inv(prev, delta, last), ts >= last]
        me = obj(x, s, "policer.RPSPolicer", _prev=nv if first else I(e=prev), _delta=I(e=delta))

        def post(s0, s1, v, x, me=me, ts=ts, delta=delta, prev=prev, first=first):
            p1, d1 = fields(s1, me)["_prev"], fields(s1, me)["_delta"]
            ok = isinstance(v, (NoneV, I)) and isinstance(p1, I) and isinstance(d1, I)
            yield "returns None or a delay", T(ok)
            if not ok:
                return
            r = v.e if isinstance(v, I) else z3.IntVal(0)
            yield "delay of at most one interval", z3.And(r >= 0, r <= delta) if isinstance(v, I) else T(True)
            yield "interval unchanged", d1.e == delta
            yield "invariant: the release lies in its slot", policer_inv(p1.e, delta, ts + r)
            if first:
                yield "first request passes", r == 0
            else:
                yield "the next slot is a later one", p1.e >= prev + delta
            yield "no effects", T(not s1.trace)
        yield {"name": "first request" if first else "later request, after the latest release", "st": s, "f": method(x, s, me, "get_timeout"), "args": [I(e=ts)], "post": post}


@contract("policer.RPSPolicer.__init__", ["C19"])
def _(x):
    for kind in ("float", "int"):
        s = St()
        if kind == "float":
            a = fresh("rps", z3.RealSort())
            v, rps = R(e=a), a
        else:
            a = fresh("rps", z3.IntSort())
            v, rps = I(e=a), z3.ToReal(a)
            s.pc += [a <= 2 ** 53, a >= -2 ** 53]
        me = obj(x, s, "policer.RPSPolicer")

        def post(s0, s1, v, x, me=me, rps=rps):
            slack = z3.Q(1, 2 ** 50)
            if isinstance(v, Raise):
                yield "refused with ValueError", T(v.e.name == "ValueError")
                yield "a usable rate is accepted", z3.Or(rps <= 0, rps * (1 + slack) >= NSR * (1 - slack))
                return
            yield "a non-positive rate is refused", rps > 0
            d, p = fields(s1, me).get("_delta"), fields(s1, me).get("_prev")
            ok = isinstance(d, I) and isinstance(p, NoneV)
            yield "starts with no slot", T(ok)
            if ok:
                e = z3.ToReal(d.e)
                yield "interval is positive", d.e > 0
                yield "interval is not shorter than 1/rps", e * rps >= NSR * (1 - slack)
                yield "interval is 1/rps rounded up to 1 ns", (e - 1) * rps <= NSR * (1 + slack)
        yield {"name": f"rps is {kind}", "st": s, "f": method(x, s, me, "__init__"), "args": [v], "post": post}


def wait_case(x, name):
    s = St()
    me = O(ref=s.new(cls=x.cls("policer.BasePolicer"), fields={}, ext="policer"))

    def post(s0, s1, v, x):
        yield "returns None", T(isinstance(v, NoneV))
        ts = [e for e in s1.trace if e[0] == "get_timeout"]
        sl = [e for e in s1.trace if e[0] == "sleep"]
        yield "asks get_timeout once, with the current time", T(len(ts) == 1 and s1.ghost.get("ts") is not None) if len(ts) != 1 else ts[0][1].e == s1.ghost["ts"]
        yield "sleeps at most once", T(len(sl) <= 1)
        if len(ts) == 1:
            d = ts[0][2]
            if isinstance(d, I):
                e = z3.ToReal(d.e)
                yield "released not before the delay", z3.Implies(d.e > 0, s1.clk >= z3.ToReal(s1.ghost["ts"]) + e * (1 - z3.Q(1, 2 ** 50)))
                if sl:
                    yield "sleeps for the delay", z3.And(d.e > 0, sl[0][1] * NSR <= e * (1 + z3.Q(1, 2 ** 50)))
            else:
                yield "no sleep when not policed", T(not sl)
    # the abstract method is the contract of the subclass
    f = x.method(x.cls("policer.BasePolicer"), name)
    if f is None:
        raise Lost(name)
    g, _ = x.bound(f, me, s)
    return {"name": name, "st": s, "f": g, "args": [], "post": post}


def get_timeout_model(x, s, env):
    return EXT.any_timeout(s, [env[k] for k in list(env)[1:]])


CONTRACTS["policer.BasePolicer.get_timeout"] = Contract("policer.BasePolicer.get_timeout", [], None, get_timeout_model)


@contract("policer.BasePolicer.wait_sync", ["C19"])
def _(x):
    yield wait_case(x, "wait_sync")


@contract("policer.BasePolicer.wait", ["C19"])
def _(x):
    yield wait_case(x, "wait")


def lemmas():
    """lemmas over the contracts (each is unsat = proved)"""
    out = []
    # C19: releases R(0..), slots P(0..): P(i) <= R(i) < P(i)+d, P(i+1) >= P(i)+d.   P(i+k) >= P(i) + k d by induction on k, so
    # R(i+k) >= P(i+k) >= P(i) + k d > R(i) + (k-1) d
    k, d, p0, pk, pk1, r0, rk = z3.Ints("k d p0 pk pk1 r0 rk")
    out.append({"name": "slots: P(i+k) >= P(i) + k*delta (base)", "props": ["C19"], "cs": [pk == p0, k == 0, z3.Not(pk >= p0 + k * d)]})
    out.append({"name": "slots: P(i+k) >= P(i) + k*delta (step)", "props": ["C19"],
                "cs": [d > 0, k >= 0, pk >= p0 + k * d, pk1 >= pk + d, z3.Not(pk1 >= p0 + (k + 1) * d)]})
    out.append({"name": "k+1 consecutive releases span more than (k-1)*delta", "props": ["C19"],
                "cs": [d > 0, k >= 0, pk >= p0 + k * d, p0 <= r0, r0 < p0 + d, pk <= rk, rk < pk + d, z3.Not(rk - r0 > (k - 1) * d)]})
    return out


# ================================================================== sessions
SYNC, ASYNC = "sync_client.client.SnmpSession", "async_client.client.SnmpSession"


def policers(s):
    """a session without and with a policer"""
    yield "no policer", nv
    yield "policer", ext("policer")


def session(x, s, cls, pol, sock, **k):
    f = dict(_sock=sock, _policer=pol, _timeout=R(e=fresh("timeout", z3.RealSort())), _fd=item(FD(z3.IntVal(sock.uid))), _to_refresh=lift(False),
             _deferred_user=nv, _max_repetitions=I(e=fresh("max_repetitions", z3.IntSort())), _allow_bulk=lift(True))
    f.update(k)
    s.pc.append(f["_timeout"].e >= 0)
    return obj(x, s, cls, **f)


def is_sock_event(e, meth, sock, args):
    """the event is this call on this socket"""
    if e[0] != "sock." + meth or e[1] != sock.uid or len(e[2]) != len(args):
        return T(False)
    return same_all(e[2], args)


def result_of(e):
    """('ret', value) or ('exc', E) of the event"""
    return e[-1]


def passes(out, res, timeout_from=("BlockingIOError",), stop=None, end="StopIteration"):
    """the outcome is the outcome of the call, BlockingIOError as TimeoutError (and the end of a walk as `end`)"""
    how, v = res
    if how == "ret":
        return z3.And(T(not isinstance(out, Raise)), T(True) if isinstance(out, Raise) else same(out, v))
    if not isinstance(out, Raise):
        return T(False)
    if v.name in timeout_from:
        return T(out.e.name == "TimeoutError")
    if stop and v.name == stop:
        return T(out.e.name == end)
    return T(out.e.name == v.name)


def sync_exchange(x, pol, sock, meth, args, stop=None):
    """one policed exchange on the socket; its outcome is returned"""
    def post(s0, s1, v, x):
        tr = list(s1.trace)
        if not isinstance(pol, NoneV):
            yield "C19: the policer is asked once, before the request", T(tr and tr[0][:2] == ("policer.wait", pol.uid) and names(tr).count("policer.wait") == 1)
            tr = tr[1:] if tr and tr[0][0] == "policer.wait" else tr
        yield "one exchange", T(len(tr) == 1)
        if len(tr) == 1:
            yield "the request of the caller", is_sock_event(tr[0], meth, sock, args)
            yield "the outcome of the exchange, no reply in time is TimeoutError", passes(v, result_of(tr[0]), stop=stop)
    return post


@contract("sync_client.client.SnmpSession.get", ["C07", "C18", "C19", "C03"])
def _(x):
    for kind in KINDS:
        for nm, pol in policers(None):
            s = St()
            sock = ext("sock", kind=kind)
            me = session(x, s, SYNC, pol, sock)
            oid = opaque("oid")
            yield {"name": nm, "st": s, "f": method(x, s, me, "get"), "args": [oid], "post": sync_exchange(x, pol, sock, "get", [oid])}


KINDS = ("SnmpV1ClientSocket", "SnmpV2cClientSocket", "SnmpV3ClientSocket")


@contract("sync_client.client.SnmpSession.get_many", ["C07", "C18", "C19", "C03"])
def _(x):
    for kind in KINDS:
        for nm, pol in policers(None):
            s = St()
            sock = ext("sock", kind=kind)
            me = session(x, s, SYNC, pol, sock)
            oids = opaque("oids")
            yield {"name": nm, "st": s, "f": method(x, s, me, "get_many"), "args": [oids],
                   "post": sync_exchange(x, pol, sock, "get_many", [item(LISTOF(oids.e))])}


# ------------------------------------------------------------------ refresh
def userf(n, u):
    return [fields_of_user(u)[k] for k in n]


def fields_of_user(u):
    return u


def an_auth_key(x, s, alg, kt):
    c = x.cls("user.Md5Key" if alg == 1 else "user.Sha1Key")
    return O(ref=s.new(cls=c, fields={"key": opaque("auth_key"), "key_type": kt}))


def a_priv_key(x, s, alg, kt):
    c = x.cls("user.DesKey" if alg == 1 else "user.Aes128Key")
    return O(ref=s.new(cls=c, fields={"key": opaque("priv_key"), "key_type": kt}))


KT = {"Password": 0, "Master": 0x40, "Localized": 0x80}


def key_types(x, s):
    for n in KT:
        v = x.classattr(x.cls("user.KeyType"), n, s)
        if v is None:
            raise Lost("KeyType." + n)
        yield v


def users(x, s0):
    """(user in a copy of the state, state, name, algorithms with key type, keys): every digest, cipher and key type"""
    for a in (0, 1, 2):
        for p in (0, 1, 2) if a else (0,):
            for ka in key_types(x, s0) if a else [None]:
                for kp in key_types(x, s0) if p else [None]:
                    s = s0.copy()
                    ak = an_auth_key(x, s, a, ka) if a else nv
                    pk = a_priv_key(x, s, p, kp) if p else nv
                    name = opaque("user_name")
                    u = obj(x, s, "user.User", name=name, auth_key=ak, priv_key=pk)
                    acode = a | KT[ka.name] if a else 0
                    pcode = p | KT[kp.name] if p else 0
                    akey = s.heap[ak.ref]["fields"]["key"] if a else lift(b"")
                    pkey = s.heap[pk.ref]["fields"]["key"] if p else lift(b"")
                    yield u, s, [name, lift(acode), akey, lift(pcode), pkey], bool(a)


def refresh_cases(x, cls, policed=True, asyn=False):
    def split(tr, sock, pol):
        """the discovery exchanges and the set_keys calls, in order"""
        want = ["policer.wait"] if not isinstance(pol, NoneV) and policed else []
        want += ["sock.send_refresh", "sock.recv_refresh"] if asyn else ["sock.refresh"]
        return want

    for nm, pol in policers(None):
        # not v3, or nothing to refresh
        for kind in KINDS:
            for need in (False, True):
                if kind == "SnmpV3ClientSocket" and need:
                    continue
                s = St()
                sock = ext("sock", kind=kind)
                me = session(x, s, cls, pol, sock, _to_refresh=lift(need))

                def post(s0, s1, v, x):
                    yield "nothing to do", T(isinstance(v, NoneV) and not s1.trace)
                yield {"name": f"{kind}, to_refresh {need}", "st": s, "f": method(x, s, me, "refresh"), "args": [], "post": post}
        # v3, keys already set
        s = St()
        sock = ext("sock", kind="SnmpV3ClientSocket")
        me = session(x, s, cls, pol, sock, _to_refresh=lift(True))

        def post1(s0, s1, v, x, sock=sock, pol=pol, me=me):
            want = split(s1.trace, sock, pol)
            got = names(s1.trace)
            if isinstance(v, Raise):
                yield "C13: an error ends it", T(got == want[:len(got)] and ((got and result_of(s1.trace[-1])[0] == "exc") or is_exc(v, "TimeoutError")))
            else:
                yield "C13: one exchange for boots and time", T(got == want)
                yield "C13: on this session's socket", z3.And([is_sock_event(e, e[0][5:], sock, []) for e in s1.trace if e[0].startswith("sock.")])
        yield {"name": "v3 with keys", "st": s, "f": method(x, s, me, "refresh"), "args": [], "post": post1}
        # v3, deferred user
        for u, s, codes, auth in users(x, St()):
            sock = ext("sock", kind="SnmpV3ClientSocket")
            me = session(x, s, cls, pol, sock, _to_refresh=lift(True), _deferred_user=u)

            def post2(s0, s1, v, x, sock=sock, pol=pol, me=me, codes=codes, auth=auth):
                w1 = split(s1.trace, sock, pol)
                want = w1 + ["sock.set_keys"] + w1
                got = names(s1.trace)
                yield "C13: discovery, then the keys, then boots and time", T(got == want[:len(got)])
                ks = [e for e in s1.trace if e[0] == "sock.set_keys"]
                for e in ks:
                    yield "C13: name, algorithms and keys of the user given", is_sock_event(e, "set_keys", sock, codes)
                yield "C13: on this session's socket", z3.And([T(e[1] == sock.uid) for e in s1.trace if e[0].startswith("sock.")])
                if isinstance(v, Raise):
                    yield "C13: an error ends it", T((got and result_of(s1.trace[-1])[0] == "exc") or is_exc(v, "TimeoutError"))
                else:
                    yield "C13: complete", T(got == want)
                f = fields(s1, me)
                done = [e for e in ks if result_of(e)[0] == "ret"]
                yield "C13: the user is kept until its keys are set", T(isinstance(f["_deferred_user"], NoneV) == bool(done))
                if done:
                    yield "C13: refreshed again when authentication is used", T(True) if not isinstance(f["_to_refresh"], B) else f["_to_refresh"].e == z3.BoolVal(auth)
            yield {"name": "v3 with a deferred user", "st": s, "f": method(x, s, me, "refresh"), "args": [], "post": post2}


@contract("sync_client.client.SnmpSession.refresh", ["C13", "C19"])
def _(x):
    yield from refresh_cases(x, SYNC)


@contract("sync_client.client.SnmpSession._refresh", ["C13", "C18", "C19"])
def _(x):
    for nm, pol in policers(None):
        s = St()
        sock = ext("sock", kind="SnmpV3ClientSocket")
        me = session(x, s, SYNC, pol, sock)
        std = sync_exchange(x, pol, sock, "refresh", [])

        def post(s0, s1, v, x, std=std):
            for n, g in std(s0, s1, v, x):
                # the value of a refresh is not used
                if n.startswith("the outcome") and not isinstance(v, Raise):
                    g = T(len(s1.trace) > 0 and result_of(s1.trace[-1])[0] == "ret")
                yield n, g
        yield {"name": nm, "st": s, "f": method(x, s, me, "_refresh"), "args": [], "post": post}


@contract("async_client.client.SnmpSession.refresh", ["C13", "C19"])
def _(x):
    yield from refresh_cases(x, ASYNC, asyn=True)


# ------------------------------------------------------------------ entering a session discovers
def enter_cases(x, cls, name, asyn):
    for nm, pol in policers(None):
        for kind, need in (("SnmpV2cClientSocket", False), ("SnmpV3ClientSocket", False), ("SnmpV3ClientSocket", True)):
            s = St()
            sock = ext("sock", kind=kind)
            me = session(x, s, cls, pol, sock, _to_refresh=lift(need))

            def post(s0, s1, v, x, me=me, kind=kind, need=need):
                k = [e for e in names(s1.trace) if e.endswith("refresh")]
                if isinstance(v, Raise):
                    yield "an error of the refresh", T(need)
                else:
                    yield "returns the session", same(v, me)
                    yield "C13: refreshed on entry", T(k == ((["sock.send_refresh", "sock.recv_refresh"] if asyn else ["sock.refresh"]) if need else []))
            yield {"name": nm, "st": s, "f": method(x, s, me, name), "args": [], "post": post}


@contract("sync_client.client.SnmpSession.__enter__", ["C13"])
def _(x):
    yield from enter_cases(x, SYNC, "__enter__", False)


@contract("async_client.client.SnmpSession.__aenter__", ["C13"])
def _(x):
    yield from enter_cases(x, ASYNC, "__aenter__", True)


def engine_id_cases(x, cls):
    for kind in KINDS:
        s = St()
        sock = ext("sock", kind=kind)
        me = session(x, s, cls, nv, sock)

        def post(s0, s1, v, x, kind=kind, sock=sock):
            if kind != "SnmpV3ClientSocket":
                yield "only for v3", T(is_exc(v, "NotImplementedError"))
            else:
                yield "the socket's engine id", z3.And(T(len(s1.trace) == 1 and not isinstance(v, Raise)), passes(v, result_of(s1.trace[0])) if s1.trace else T(False))
        yield {"name": kind, "st": s, "f": method(x, s, me, "get_engine_id"), "args": [], "post": post}


@contract("sync_client.client.SnmpSession.get_engine_id", ["C13"])
def _(x):
    yield from engine_id_cases(x, SYNC)


@contract("async_client.client.SnmpSession.get_engine_id", ["C13"])
def _(x):
    yield from engine_id_cases(x, ASYNC)


# ------------------------------------------------------------------ construction
def init_cases(x, cls, asyn):
    ver = {}
    s0 = St()
    for n in ("v1", "v2c", "v3"):
        ver[n] = x.classattr(x.cls("version.SnmpVersion"), n, s0)
        if ver[n] is None:
            raise Lost("SnmpVersion." + n)
    ver[None] = nv

    def case(s, v, user, codes, auth, eng, pol, rps):
        me = obj(x, s, cls)
        args = {k: opaque(k) for k in ("addr", "community")}
        for k in ("port", "tos", "send_buffer", "recv_buffer", "max_repetitions"):
            args[k] = I(e=fresh(k, z3.IntSort()))
        args["timeout"] = R(e=fresh("timeout", z3.RealSort()))
        args["allow_bulk"] = B(e=fresh("allow_bulk", z3.BoolSort()))
        s.pc += [args["timeout"].e >= 0]
        kw = dict(args, version=ver[v], user=user, engine_id=eng, policer=pol, limit_rps=rps)
        real = v or ("v2c" if isinstance(user, NoneV) else "v3")

        def post(s0, s1, out, x):
            mk = [e for e in s1.trace if e[0] == "new"]
            if real == "v3" and isinstance(user, NoneV):
                yield "v3 needs a user", T(is_exc(out, "ValueError") and not mk)
                return
            yield "one socket", T(len(mk) == 1)
            if len(mk) != 1:
                return
            kind, a, sock = mk[0][1:4]
            yield "socket of the version", T(kind == {"v1": "SnmpV1ClientSocket", "v2c": "SnmpV2cClientSocket", "v3": "SnmpV3ClientSocket"}[real])
            tail = [args["tos"], args["send_buffer"], args["recv_buffer"]]
            addr = Fmt(parts=[args["addr"], Str(s=":"), args["port"]])
            know = simp(z3.And(T(not isinstance(eng, NoneV)), eng.t if isinstance(eng, U) else T(False)))
            if real != "v3":
                ok = len(a) == 6
                yield "C03: address, community and options", same_all(a[:5], [addr, args["community"]] + tail) if ok else T(False)
            else:
                ok = len(a) == 11
                known = isinstance(eng, U)
                cred = codes if known else [Str(s=""), lift(0), lift(b""), lift(0), lift(b"")]
                yield "C13: engine id when given, user's keys only with an engine id", same_all(a[:10], [addr, eng if known else lift(b"")] + cred + tail) if ok else T(False)
            if not ok:
                return
            tn = a[-1]
            if asyn:
                yield "C18: sockets of the async client do not block", same(tn, lift(0))
            else:
                t = args["timeout"].e * NSR
                yield "C18: timeout in nanoseconds", z3.And(z3.ToReal(tn.e) <= t * (1 + z3.Q(1, 2 ** 50)), z3.ToReal(tn.e) + 1 >= t * (1 - z3.Q(1, 2 ** 50))) if isinstance(tn, I) else T(False)
            if isinstance(out, Raise):
                yield "errors of the socket or of the rate limit", T(result_of(mk[0])[0] == "exc" or (isinstance(rps, R) and isinstance(pol, NoneV) and out.e.name == "ValueError"))
                if result_of(mk[0])[0] == "ret":
                    sl = z3.Q(1, 2 ** 50)
                    yield "C19: a usable rate is accepted", z3.Or(rps.e < 0, rps.e * (1 + sl) >= NSR * (1 - sl)) if isinstance(rps, R) else T(False)
                return
            f = fields(s1, me)
            yield "the session uses that socket", same(f["_sock"], sock)
            yield "C18: descriptor of that socket", same(f["_fd"], item(FD(z3.IntVal(sock.uid))))
            yield "C18: timeout kept", same(f["_timeout"], args["timeout"])
            yield "C05: default max_repetitions", same(f["_max_repetitions"], args["max_repetitions"])
            ab = f["_allow_bulk"]
            yield "C05: no GetBulk in v1, otherwise as asked", (ab.e == (z3.BoolVal(False) if real == "v1" else args["allow_bulk"].e)) if isinstance(ab, B) else T(False)
            p = f["_policer"]
            if not isinstance(pol, NoneV):
                yield "C19: the policer given", same(p, pol)
            elif isinstance(rps, R):
                isp = isinstance(p, O) and s1.heap[p.ref]["cls"].node.name == "RPSPolicer"
                yield "C19: a policer for the rate", z3.If(rps.e == 0, T(isinstance(p, NoneV)), T(isp))
                if isp:
                    d = fields(s1, p)["_delta"]
                    sl = z3.Q(1, 2 ** 48)
                    yield "C19: with that rate", z3.And(z3.ToReal(d.e) * rps.e >= NSR * (1 - sl), (z3.ToReal(d.e) - 1) * rps.e <= NSR * (1 + sl))
            else:
                yield "no policer", T(isinstance(p, NoneV))
            if real == "v3":
                if isinstance(eng, U):
                    yield "C13: keys are set", T(isinstance(f["_deferred_user"], NoneV))
                    yield "C13: refresh for authentication", T(isinstance(f["_to_refresh"], B)) if not isinstance(f["_to_refresh"], B) else f["_to_refresh"].e == z3.BoolVal(auth)
                else:
                    yield "C13: discovery is due", T(isinstance(f["_to_refresh"], B)) if not isinstance(f["_to_refresh"], B) else f["_to_refresh"].e
                    yield "C13: keys wait for the engine id", same(f["_deferred_user"], user)
            else:
                yield "nothing to refresh", T(True)
        return {"name": f"version {v}, {'user' if not isinstance(user, NoneV) else 'no user'}, {'engine id' if isinstance(eng, U) else 'no engine id'}",
                "st": s, "f": method(x, s, me, "__init__"), "args": [], "kw": kw, "post": post}

    def extras(s):
        yield nv, nv
        yield ext("policer"), nv
        yield nv, R(e=fresh("limit_rps", z3.RealSort()))

    for v in ("v1", "v2c", "v3", None):
        for pol, rps in extras(None):
            yield case(St(), v, nv, None, False, nv, pol, rps)
    first = True
    for u, s, codes, auth in users(x, St()):
        for v in ("v3", None):
            for known in (True, False):
                s2 = s.copy()
                eng = nv
                if known:
                    eng = opaque("engine_id")
                    s2.pc += [eng.e != NONE, eng.t]
                for pol, rps in (list(extras(None)) if first else [(nv, nv)]):
                    yield case(s2.copy(), v, u, codes, auth, eng, pol, rps)
        first = False


@contract("sync_client.client.SnmpSession.__init__", ["C03", "C05", "C13", "C18", "C19"])
def _(x):
    yield from init_cases(x, SYNC, False)


@contract("async_client.client.SnmpSession.__init__", ["C03", "C05", "C13", "C18", "C19"])
def _(x):
    yield from init_cases(x, ASYNC, True)


# ------------------------------------------------------------------ walks
def opens(x, cls, name, itercls, bulk):
    """getnext/getbulk/fetch: a fresh iterator over the base OID"""
    for nm, pol in policers(None):
        for allow in ((True, False) if name == "fetch" else (None,)):
            for mr in (("none", "given") if name == "getbulk" else ("none",)):
                s = St()
                sock = ext("sock", kind="SnmpV2cClientSocket")
                me = session(x, s, cls, pol, sock, _allow_bulk=lift(bool(allow)))
                oid = opaque("oid")
                rep = I(e=fresh("max_repetitions", z3.IntSort()))
                kw = {"max_repetitions": rep} if mr == "given" else {}
                isb = bulk if allow is None else allow

                def post(s0, s1, v, x, isb=isb, pol=pol, sock=sock, oid=oid, rep=rep, mr=mr, me=me):
                    tr = s1.trace
                    yield "one walk is opened, nothing is sent", T(names(tr) == ["iter"])
                    if names(tr) != ["iter"]:
                        return
                    a = tr[0][1]
                    yield "C06: from the base OID", same(a[0], oid) if a else T(False)
                    dflt = fields(s0, me)["_max_repetitions"].e
                    if isb:
                        want = z3.If(rep.e != 0, rep.e, dflt) if mr == "given" else dflt
                        yield "C05: with the max-repetitions asked for", a[1].e == want if len(a) == 2 and isinstance(a[1], I) else T(False)
                    if isinstance(v, Raise):
                        yield "only for a malformed OID", T(result_of(tr[0])[0] == "exc")
                        return
                    cn = s1.heap[v.ref]["cls"].node.name if isinstance(v, O) and "cls" in s1.heap[v.ref] else ""
                    yield "C05: the kind of walk asked for", T(cn == ("GetBulkIter" if isb else "GetNextIter"))
                    if not cn:
                        return
                    f = fields(s1, v)
                    yield "of this session", z3.And(same(f["_ctx"], tr[0][2]), same(f["_sock"], sock))
                    if cn == "GetBulkIter":
                        yield "C05: nothing buffered", s1.heap[f["_buffer"].ref]["n"] == 0 if isinstance(f["_buffer"], O) else T(False)
                    if "_policer" in f:
                        yield "C19: with the session's policer", same(f["_policer"], pol)
                yield {"name": f"{nm}, allow_bulk {allow}, max_repetitions {mr}", "st": s, "f": method(x, s, me, name), "args": [oid], "kw": kw, "post": post}


for _c, _pr in ((SYNC, "sync_client.client.SnmpSession"), (ASYNC, "async_client.client.SnmpSession")):
    for _n, _b in (("getnext", False), ("getbulk", True), ("fetch", None)):
        def _mk(c, n, b):
            def cases(x):
                yield from opens(x, c, n, None, b)
            return cases
        contract(f"{_pr}.{_n}", ["C03", "C05", "C06"] + (["C19"] if _c == SYNC else []))(_mk(_c, _n, _b))


@contract("sync_client.getnext.GetNextIter.__next__", ["C05", "C06", "C18", "C19"])
def _(x):
    for nm, pol in policers(None):
        s = St()
        sock, ctx = ext("sock", kind="SnmpV1ClientSocket"), ext("iter")
        me = obj(x, s, "sync_client.getnext.GetNextIter", _sock=sock, _ctx=ctx, _policer=pol)
        yield {"name": nm, "st": s, "f": method(x, s, me, "__next__"), "args": [],
               "post": sync_exchange(x, pol, sock, "get_next", [ctx], stop="StopAsyncIteration")}


def bulk_post(x, me, buf, pol, sock, ctx, asyn):
    end = "StopAsyncIteration" if asyn else "StopIteration"
    arr, lo, n = buf

    def head(s1, v, arr, lo, n, b1):
        """the outcome is the head of the items, they remain without it"""
        e = z3.Select(arr, lo)
        if isinstance(v, Raise):
            first = T(v.e.name == end)
            return z3.And(first, z3.Or(n == 0, e == NONE))
        o = s1.heap[b1.ref]
        k = fresh("k", z3.IntSort())
        return z3.And(n > 0, e != NONE, same(v, item(e)), o["n"] == n - 1,
                      z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n - 1), z3.Select(o["arr"], o["lo"] + k) == z3.Select(arr, lo + 1 + k))))

    def post(s0, s1, v, x):
        b1 = fields(s1, me)["_buffer"]
        if not (isinstance(b1, O) and "list" in s1.heap[b1.ref]):
            yield "C05: the buffer is a list", T(False)
            return
        tr = list(s1.trace)
        if not tr:
            if isinstance(v, Raise) and v.e.name == "TimeoutError" and asyn:
                yield "C18: no reply in time", n == 0
                return
            yield "C05: buffered items are delivered in order, a stop marker ends the walk", z3.And(n > 0, head(s1, v, arr, lo, n, b1))
            return
        yield "C05: a request only when nothing is buffered", n == 0
        if not isinstance(pol, NoneV):
            yield "C19: the policer is asked once, before the request", T(tr[0][:2] == ("policer.wait", pol.uid) and names(tr).count("policer.wait") == 1)
            tr = tr[1:] if tr[0][0] == "policer.wait" else tr
        if asyn:
            want = ["sock.send_get_bulk", "sock.recv_get_bulk"]
            yield "C06: one exchange", T(names(tr) == want[:len(tr)] and len(tr) >= 1)
            if not tr or names(tr) != want[:len(tr)]:
                return
            yield "C06: for the walk's position", z3.And([is_sock_event(e, e[0][5:], sock, [ctx]) for e in tr])
            if len(tr) == 1:
                r = result_of(tr[0])
                yield "C18: no reply, no result", T(isinstance(v, Raise) and (is_exc(v, "TimeoutError") or (r[0] == "exc" and v.e.name == r[1].name)))
                return
        else:
            yield "C06: one exchange", T(names(tr) == ["sock.get_bulk"])
            if names(tr) != ["sock.get_bulk"]:
                return
            yield "C06: for the walk's position", is_sock_event(tr[0], "get_bulk", sock, [ctx])
        r = result_of(tr[-1])
        if r[0] == "exc":
            yield "C18: errors pass, no reply in time is TimeoutError", passes(v, r, stop="StopAsyncIteration", end=end)
        else:
            o = [e for e in [r[1]]][0]
            # the list as it was received
            got = s1.ghost["lists"][o.ref] if "lists" in s1.ghost and o.ref in s1.ghost["lists"] else None
            yield "C05: the items received are delivered in order, none or a stop marker ends the walk", head(s1, v, *RECEIVED[o.ref], b1)
    return post


RECEIVED = {}
_sock0 = EXT.sock


def _sock(x, s, f, name, pos, kw):
    out = _sock0(x, s, f, name, pos, kw)
    for s2, v in out:
        if isinstance(v, O) and "list" in s2.heap[v.ref]:
            o = s2.heap[v.ref]
            RECEIVED[v.ref] = (o["arr"], o["lo"], o["n"])
    return out


EXT.sock = _sock


@contract("sync_client.getbulk.GetBulkIter.__next__", ["C05", "C06", "C18", "C19"])
def _(x):
    for nm, pol in policers(None):
        s = St()
        sock, ctx = ext("sock", kind="SnmpV2cClientSocket"), ext("iter")
        arr, lo, n = fresh("arr", z3.ArraySort(z3.IntSort(), Uni)), fresh("lo", z3.IntSort()), fresh("n", z3.IntSort())
        s.pc.append(n >= 0)
        b = O(ref=s.new(list=True, arr=arr, lo=lo, n=n))
        me = obj(x, s, "sync_client.getbulk.GetBulkIter", _sock=sock, _ctx=ctx, _policer=pol, _buffer=b, _max_repetitions=I(e=fresh("mr", z3.IntSort())))
        yield {"name": nm, "st": s, "f": method(x, s, me, "__next__"), "args": [], "post": bulk_post(x, me, (arr, lo, n), pol, sock, ctx, False)}


# ------------------------------------------------------------------ the async client
def registered(s):
    return s.ghost.get("registered", ())


@contract("async_client.client.SnmpSession._recv", ["C18", "C04"])
def _(x):
    s = St()
    sock = ext("sock", kind="SnmpV2cClientSocket")
    me = session(x, s, ASYNC, nv, sock)
    rcv = ext("receiver")

    def post(s0, s1, v, x):
        t = fields(s0, me)["_timeout"].e * NSR
        yield "C18: returns within the timeout", s1.clk <= s0.clk + t
        yield "no registration is left", T(not registered(s1))
        yield "C18: woken by the session's own socket", T(all(k == ("reader", str(simp(FD(z3.IntVal(sock.uid))))) for k in s1.ghost.get("woken", ())))
        tr = s1.trace
        if not tr:
            yield "C18: gives up with TimeoutError and only after the timeout", z3.And(T(is_exc(v, "TimeoutError")), s1.clk >= s0.clk + t)
        else:
            yield "the outcome of the receiver, once", z3.And(T(len(tr) == 1 and tr[0][0] == "receiver"), passes(v, result_of(tr[0]), timeout_from=()))
    yield {"name": "any receiver", "st": s, "f": method(x, s, me, "_recv"), "args": [rcv], "post": post}


def recv_model(x, s, env):
    """contract of _recv for its callers"""
    ks = list(env)
    me, rcv = env[ks[0]], env[ks[1]]
    t = fields(s, me)["_timeout"].e * NSR
    d = s.clk + t
    s1 = adv(s)
    s1.pc.append(s1.clk <= d)
    out = [(now(s, d), x.raises("TimeoutError", uid="deadline"))]
    for s2, r in x.call(s1, rcv, [], {}):
        if isinstance(r, Raise) and r.e.name == "BlockingIOError":
            continue        # received again
        out.append((s2, r))
    return out


CONTRACTS["async_client.client.SnmpSession._recv"].model = recv_model


@contract("async_client.client.SnmpSession._send", ["C19", "C03"])
def _(x):
    for nm, pol in policers(None):
        s = St()
        sock = ext("sock", kind="SnmpV2cClientSocket")
        me = session(x, s, ASYNC, pol, sock)
        snd = ext("sender")

        def post(s0, s1, v, x, pol=pol, sock=sock):
            tr = list(s1.trace)
            if not isinstance(pol, NoneV):
                yield "C19: the policer is asked once, before the request", T(tr and tr[0][:2] == ("policer.wait", pol.uid) and names(tr).count("policer.wait") == 1)
                tr = tr[1:] if tr and tr[0][0] == "policer.wait" else tr
            yield "no registration is left", T(not registered(s1))
            if is_exc(v, "BlockingIOError"):
                yield "not sent", T(not tr)
            else:
                yield "C03: sent once, with the outcome of the sender", z3.And(T(names(tr) == ["sender"]), passes(v, result_of(tr[0]), timeout_from=()) if tr else T(False))
        yield {"name": nm, "st": s, "f": method(x, s, me, "_send"), "args": [snd], "post": post}


def send_model(x, s, env):
    """contract of _send for its callers; the senders of the library never block (contract of send_*)"""
    ks = list(env)
    me, snd = env[ks[0]], env[ks[1]]
    pol = fields(s, me)["_policer"]
    s1 = adv(s)
    if isinstance(pol, X):
        s1 = s1.ev("policer.wait", pol.uid)
    out = []
    for s2, r in x.call(s1, snd, [], {}):
        if isinstance(r, Raise) and r.e.name == "BlockingIOError":
            raise Unsupported("a sender which may block")
        out.append((s2, r))
    return out


CONTRACTS["async_client.client.SnmpSession._send"].model = send_model


def async_exchange(x, pol, sock, meth, args, rargs, end=None):
    def post(s0, s1, v, x):
        tr = list(s1.trace)
        if not isinstance(pol, NoneV):
            yield "C19: the policer is asked once, before the request", T(tr and tr[0][:2] == ("policer.wait", pol.uid) and names(tr).count("policer.wait") == 1)
            tr = tr[1:] if tr and tr[0][0] == "policer.wait" else tr
        want = ["sock.send_" + meth, "sock.recv_" + meth]
        yield "one exchange", T(len(tr) >= 1 and names(tr) == want[:len(tr)])
        if not tr or names(tr) != want[:len(tr)]:
            return
        yield "the request of the caller", is_sock_event(tr[0], "send_" + meth, sock, args)
        r = result_of(tr[0])
        if r[0] == "exc":
            yield "an error of sending", z3.And(T(len(tr) == 1), passes(v, r))
        elif len(tr) == 1:
            yield "C18: no reply in time is TimeoutError", T(is_exc(v, "TimeoutError"))
        else:
            yield "its reply", is_sock_event(tr[1], "recv_" + meth, sock, rargs)
            yield "the outcome of the exchange", passes(v, result_of(tr[1]), timeout_from=())
    return post


for _n in ("get", "get_many"):
    def _mk2(n):
        def cases(x):
            for kind in KINDS:
                for nm, pol in policers(None):
                    s = St()
                    sock = ext("sock", kind=kind)
                    me = session(x, s, ASYNC, pol, sock)
                    a = opaque("request")
                    yield {"name": nm, "st": s, "f": method(x, s, me, n), "args": [a],
                           "post": async_exchange(x, pol, sock, n, [a if n == "get" else item(LISTOF(a.e))], [])}
        return cases
    contract(f"async_client.client.SnmpSession.{_n}", ["C07", "C18", "C19", "C03"])(_mk2(_n))


@contract("async_client.client.GetNextIter.__anext__", ["C05", "C06", "C18", "C19"])
def _(x):
    for nm, pol in policers(None):
        s = St()
        sock, ctx = ext("sock", kind="SnmpV1ClientSocket"), ext("iter")
        ses = session(x, s, ASYNC, pol, sock)
        me = obj(x, s, "async_client.client.GetNextIter", _session=ses, _sock=sock, _ctx=ctx)
        yield {"name": nm, "st": s, "f": method(x, s, me, "__anext__"), "args": [], "post": async_exchange(x, pol, sock, "get_next", [ctx], [ctx])}


@contract("async_client.client.GetBulkIter.__anext__", ["C05", "C06", "C18", "C19"])
def _(x):
    for nm, pol in policers(None):
        s = St()
        sock, ctx = ext("sock", kind="SnmpV2cClientSocket"), ext("iter")
        ses = session(x, s, ASYNC, pol, sock)
        arr, lo, n = fresh("arr", z3.ArraySort(z3.IntSort(), Uni)), fresh("lo", z3.IntSort()), fresh("n", z3.IntSort())
        s.pc.append(n >= 0)
        b = O(ref=s.new(list=True, arr=arr, lo=lo, n=n))
        me = obj(x, s, "async_client.client.GetBulkIter", _session=ses, _sock=sock, _ctx=ctx, _buffer=b, _max_repetitions=I(e=fresh("mr", z3.IntSort())))
        yield {"name": nm, "st": s, "f": method(x, s, me, "__anext__"), "args": [], "post": bulk_post(x, me, (arr, lo, n), pol, sock, ctx, True)}


for _q in ("sync_client.getbulk.GetBulkIter.__iter__", "sync_client.getnext.GetNextIter.__iter__", "async_client.client.GetBulkIter.__aiter__", "async_client.client.GetNextIter.__aiter__"):
    def _mk3(q):
        def cases(x):
            s = St()
            me = obj(x, s, q.rsplit(".", 1)[0])

            def post(s0, s1, v, x):
                yield "the walk itself", z3.And(T(not s1.trace), same(v, me))
            yield {"name": "", "st": s, "f": method(x, s, me, q.rsplit(".", 1)[1]), "args": [], "post": post}
        return cases
    contract(_q, ["C05"])(_mk3(_q))


# ================================================================== users and keys (C12, C13)
def user_getter(name, idx):
    def cases(x):
        for u, s, codes, auth in users(x, St()):
            def post(s0, s1, v, x, codes=codes, auth=auth):
                yield "C12: " + name, z3.And(T(not isinstance(v, Raise) and not s1.trace), same(v, lift(auth) if idx is None else codes[idx]) if not isinstance(v, Raise) else T(False))
            yield {"name": "every digest, cipher and key type", "st": s, "f": method(x, s, u, name), "args": [], "post": post}
    return cases


for _n, _i in (("get_auth_alg", 1), ("get_auth_key", 2), ("get_priv_alg", 3), ("get_priv_key", 4), ("require_auth", None)):
    contract(f"user.User.{_n}", ["C12", "C13"])(user_getter(_n, _i))


@contract("user.User.__init__", ["C12"])
def _(x):
    for u, s, codes, auth in users(x, St()):
        f = fields(s, u)
        me = obj(x, s, "user.User")
        ak, pk = f["auth_key"], f["priv_key"]
        if isinstance(ak, O):
            klen = {1: 16, 2: 20}[int(str(simp(codes[1].e))) & 0x3f]
        key0 = s.heap[pk.ref]["fields"]["key"] if isinstance(pk, O) else None
        if key0 is not None:
            s.pc += [key0.e != NONE, key0.ln >= 0, key0.t == (key0.ln != 0)]

        def post(s0, s1, v, x, me=me, f=f, ak=ak, pk=pk, key0=key0, klen=klen if isinstance(ak, O) else 0):
            yield "accepted", T(isinstance(v, NoneV))
            g = fields(s1, me)
            if isinstance(v, Raise):
                return
            yield "name and keys as given", same_all([g["name"], g["auth_key"], g["priv_key"]], [f["name"], ak, pk])
            if isinstance(pk, O):
                k1 = fields(s1, pk)["key"]
                kt = fields(s1, pk)["key_type"].name
                yield "C12: a key of the right length (and every password) is kept as it is", z3.Implies(z3.Or(T(kt == "Password"), key0.ln == klen), same(k1, key0))
                yield "C12: a master or localized key has the length of the digest", z3.Implies(T(kt != "Password"), k1.ln == klen) if isinstance(k1, U) else T(False)
        yield {"name": "every digest, cipher and key type", "st": s, "f": method(x, s, me, "__init__"), "args": [f["name"]], "kw": {"auth_key": ak, "priv_key": pk}, "post": post}
    s = St()
    me = obj(x, s, "user.User")
    kt = list(key_types(x, s))[0]
    pk = a_priv_key(x, s, 1, kt)

    def post(s0, s1, v, x):
        yield "privacy without authentication is refused", T(is_exc(v, "ValueError"))
    yield {"name": "no digest", "st": s, "f": method(x, s, me, "__init__"), "args": [opaque("name")], "kw": {"priv_key": pk}, "post": post}


@contract("user.BaseAuthKey.__init__", ["C12"])
def _(x):
    for c, ln in (("user.Md5Key", 16), ("user.Sha1Key", 20)):
        s0 = St()
        for kt in key_types(x, s0):
            s = St()
            me = obj(x, s, c)
            key = opaque("key")
            s.pc += [key.e != NONE, key.ln >= 0, key.t == (key.ln != 0)]

            def post(s0, s1, v, x, me=me, key=key, kt=kt, ln=ln):
                yield "accepted", T(isinstance(v, NoneV))
                f = fields(s1, me)
                k1 = f.get("key")
                yield "key type kept", same(f["key_type"], kt)
                yield "C12: a key of the right length (and every password) is kept as it is", z3.Implies(z3.Or(T(kt.name == "Password"), key.ln == ln), same(k1, key))
                yield "C12: a master or localized key has the length of the digest", z3.Implies(T(kt.name != "Password"), k1.ln == ln) if isinstance(k1, U) else T(False)
            yield {"name": c, "st": s, "f": method(x, s, me, "__init__"), "args": [key, kt], "post": post}


for _c, _a in (("Md5Key", 1), ("Sha1Key", 2)):
    for _n, _k in (("get_master_key", 1), ("get_localized_key", 2)):
        def _mk4(c, a, n, k):
            def cases(x):
                s = St()
                cl = x.cls("user." + c)
                f = x.method(cl, n)
                if f is None:
                    raise Lost(n)
                g, _ = x.bound(f, cl, s)
                args = [opaque("arg") for _ in range(k)]

                def post(s0, s1, v, x):
                    tr = s1.trace
                    yield "C12: computed by the extension for the class's digest", z3.And(T(names(tr) == [n]), same_all(tr[0][1], [lift(a)] + args), passes(v, result_of(tr[0]))) if tr else T(False)
                yield {"name": c, "st": s, "f": g, "args": args, "post": post}
            return cases
        _old = CONTRACTS.get(f"user.BaseKey.{_n}")
        _new = _mk4(_c, _a, _n, _k)
        if _old:
            _prev = _old.cases

            def _both(x, p=_prev, q=_new):
                yield from p(x)
                yield from q(x)
            _old.cases = _both
        else:
            contract(f"user.BaseKey.{_n}", ["C12"])(_new)
