"""A deductive verifier for the Python layer of /repo (src/gufo/snmp): verification conditions are generated from the
syntax tree of the current source by strongest postconditions and discharged by z3.

* values are symbolic: int (mathematical, as in Python), float (a real with a relative rounding error 2**-53 per operation),
  objects with fields, lists (a window in an unbounded array), closures, coroutines, exceptions, opaque values;
* a function under contract is executed for an arbitrary state satisfying its precondition; every path (with exceptions,
  finally blocks and cancellation at awaits) has to satisfy the postcondition; there is no bound;
* a call is replaced by the contract of the callee when it has one (contracts/python.py), calls of functions without one are
  executed in place;
* a loop is cut at its head: everything it assigns is forgotten, the invariant (no recorded effect, no object changed, every
  reader/writer registration as at entry) is assumed there and checked at the end of the body.
What is not understood raises Unsupported: the function is then undecided, never proved.
"""
import ast, builtins, importlib.util, json, os, sys, time
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "gufo", "snmp")

Uni = z3.DeclareSort("U")
NONE = z3.Const("None", Uni)
EPS = z3.Q(1, 2 ** 53)


class Unsupported(Exception):
    pass


class Lost(Exception):
    pass


# ------------------------------------------------------------------ values
class Val:
    def __init__(this, **k):
        this.__dict__.update(k)

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(f'{k}={v!r}' for k, v in self.__dict__.items() if k not in ('node', 'mod'))})"


class I(Val):          # int: e
    pass


class R(Val):          # float: e
    pass


class B(Val):          # bool: e
    pass


class NoneV(Val):
    pass


class Str(Val):        # concrete: s
    pass


class By(Val):         # concrete bytes: b
    pass


class U(Val):          # opaque value: e (sort U), t truthiness, ln length
    pass


class Fmt(Val):        # f-string: parts
    pass


class Tup(Val):        # items
    pass


class O(Val):          # heap object: ref
    pass


class Enum(Val):       # member: cls, name, value
    pass


class Cls(Val):        # class of /repo: node, mod
    pass


class Exc(Val):        # exception class: name
    pass


class E(Val):          # exception: name, cause
    pass


class F(Val):          # function: node, mod, scope, self, qual
    pass


class X(Val):          # something outside: name, and data
    pass


class Co(Val):         # coroutine: f, args, kw
    pass


class Sup(Val):        # super(): me, cls
    pass


class Raise(Val):      # result of an evaluation: e
    pass


nv = NoneV()
_n = [0]


def fresh(name, sort):
    _n[0] += 1
    return z3.Const(f"{name}!{_n[0]}", sort)


def opaque(name):
    e = fresh(name, Uni)
    return U(e=e, t=fresh(name + ".true", z3.BoolSort()), ln=fresh(name + ".len", z3.IntSort()))


def lift(x):
    if isinstance(x, bool):
        return B(e=z3.BoolVal(x))
    if isinstance(x, int):
        return I(e=z3.IntVal(x))
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        return R(e=z3.Q(n, d))
    if isinstance(x, str):
        return Str(s=x)
    if isinstance(x, bytes):
        return By(b=x)
    if x is None:
        return nv
    raise Unsupported(f"constant {x!r}")


def simp(e):
    return z3.simplify(e)


def same(a, b):
    """z3 Bool: the two values are the same Python value"""
    if isinstance(a, I) and isinstance(b, I):
        return a.e == b.e
    if isinstance(a, R) and isinstance(b, R):
        return a.e == b.e
    if isinstance(a, B) and isinstance(b, B):
        return a.e == b.e
    if isinstance(a, U) and isinstance(b, U):
        return a.e == b.e
    if isinstance(a, U) and isinstance(b, NoneV):
        return a.e == NONE
    if isinstance(a, NoneV) and isinstance(b, U):
        return b.e == NONE
    if type(a) is not type(b):
        return z3.BoolVal(False)
    if isinstance(a, NoneV):
        return z3.BoolVal(True)
    if isinstance(a, Str):
        return z3.BoolVal(a.s == b.s)
    if isinstance(a, By):
        return z3.BoolVal(a.b == b.b)
    if isinstance(a, (Fmt, Tup)):
        x, y = (a.parts, b.parts) if isinstance(a, Fmt) else (a.items, b.items)
        return z3.And([same(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else z3.BoolVal(False)
    if isinstance(a, O):
        return z3.BoolVal(a.ref == b.ref)
    if isinstance(a, Enum):
        return z3.BoolVal((a.cls.node.name, a.name) == (b.cls.node.name, b.name))
    if isinstance(a, X):
        return z3.BoolVal(a.name == b.name and all(getattr(a, k, None) == getattr(b, k, None) for k in ("uid",)))
    if isinstance(a, E):
        return z3.BoolVal(a.name == b.name and getattr(a, "uid", None) == getattr(b, "uid", None))
    if isinstance(a, Cls):
        return z3.BoolVal(a.node is b.node)
    if isinstance(a, F):
        return z3.BoolVal(a.node is b.node and a.scope == b.scope)
    raise Unsupported(f"comparing {a!r} {b!r}")


# ------------------------------------------------------------------ exceptions
SNMP_EXC = {"SnmpError": "Exception", "SnmpDecodeError": "SnmpError", "SnmpEncodeError": "SnmpError", "NoSuchInstance": "SnmpError",
            "SnmpAuthError": "SnmpError", "CancelledError": "BaseException"}


def exc_mro(n):
    if n in SNMP_EXC:
        return [n] + exc_mro(SNMP_EXC[n])
    c = getattr(builtins, n, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [k.__name__ for k in c.__mro__]
    raise Unsupported(f"exception class {n}")


# ------------------------------------------------------------------ states
class St:
    def __init__(self):
        self.pc, self.heap, self.trace, self.clk, self.ghost, self.refs = [], {}, [], z3.RealVal(0), {}, 0

    def copy(self):
        s = St()
        s.pc = list(self.pc)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.trace = list(self.trace)
        s.clk = self.clk
        s.ghost = dict(self.ghost)
        s.refs = self.refs
        return s

    def new(self, **fields):
        _n[0] += 1
        r = _n[0]
        self.heap[r] = fields
        return r

    def assume(self, *c):
        s = self.copy()
        s.pc.extend(c)
        return s

    def ev(self, *event):
        s = self.copy()
        s.trace.append(event)
        return s


class Solver:
    def __init__(self):
        self.time, self.queries = 0.0, 0

    def check(self, cs, timeout=20000):
        t0 = time.monotonic()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*cs)
        r = s.check()
        self.time += time.monotonic() - t0
        self.queries += 1
        return r, (s.model() if r == z3.sat else None)


SOLVER = Solver()


def feasible(st):
    return SOLVER.check(st.pc, 3000)[0] != z3.unsat


# ------------------------------------------------------------------ modules
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.names, self.cache = {}, {}
        for n in self.tree.body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = n.value
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.names[a.asname or a.name] = (n, a)


class World:
    def __init__(self):
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            p = os.path.join(SRC, *name.split("."))
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.exists(q):
                    self.mods[name] = Module(name, q)
                    break
            else:
                raise Lost(f"no module {name}")
        return self.mods[name]


def is_pkg(m):
    return m.path.endswith("__init__.py")


# ------------------------------------------------------------------ the executor
MAXDEPTH, MAXPATHS = 40, 4000


class Exec:
    def __init__(self, world, ext, contracts=None, current=None):
        self.w, self.ext, self.contracts, self.current = world, ext, contracts or {}, current
        self.depth, self.obl, self.inlined = 0, [], set()

    # -------------------------------------------------------------- lookup
    def find(self, qual):
        """'policer.RPSPolicer.get_timeout' -> F"""
        parts = qual.split(".")
        for k in range(len(parts) - 1, 0, -1):
            try:
                m = self.w.module(".".join(parts[:k]))
            except Lost:
                continue
            rest = parts[k:]
            n = m.names.get(rest[0])
            if isinstance(n, ast.ClassDef) and len(rest) == 2:
                f = self.method(Cls(node=n, mod=m), rest[1])
                if f is None:
                    raise Lost(f"no method {qual}")
                return f
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and len(rest) == 1:
                return F(node=n, mod=m, scope=None, self=None, qual=qual)
        raise Lost(f"no function {qual}")

    def cls(self, qual):
        m, n = qual.rsplit(".", 1)
        md = self.w.module(m)
        if not isinstance(md.names.get(n), ast.ClassDef):
            raise Lost(f"no class {qual}")
        return Cls(node=md.names[n], mod=md)

    def mro(self, c):
        out = [c]
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id in c.mod.names or isinstance(b, ast.Name) and b.id != "object":
                v = self.glob(c.mod, b.id)
                if isinstance(v, Cls):
                    out += self.mro(v)
        return out

    def is_enum(self, c):
        for k in self.mro(c):
            for b in k.node.bases:
                nm = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "")
                if nm in ("IntEnum", "Enum"):
                    return True
        return False

    def method(self, c, name):
        for k in self.mro(c):
            for n in k.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                    return F(node=n, mod=k.mod, scope=None, self=None, qual=f"{k.mod.name}.{k.node.name}.{name}", owner=k)
        return None

    def classattr(self, c, name, st):
        for k in self.mro(c):
            for n in k.node.body:
                v = None
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    v = n.value
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                    v = n.value
                if v is not None:
                    (s, x), = self.ev(v, st, {"mod": k.mod, "scope": None})
                    if self.is_enum(c):
                        return Enum(cls=c, name=name, value=x)
                    return x
        return None

    def glob(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        n = mod.names.get(name)
        if n is None:
            v = self.builtin(name)
        elif isinstance(n, ast.ClassDef):
            v = Cls(node=n, mod=mod)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = F(node=n, mod=mod, scope=None, self=None, qual=f"{mod.name}.{n.name}")
        elif isinstance(n, tuple):
            v = self.imported(mod, *n)
        else:
            rs = self.ev(n, St(), {"mod": mod, "scope": None})
            if len(rs) != 1:
                raise Unsupported(f"module constant {name}")
            v = rs[0][1]
        mod.cache[name] = v
        return v

    def imported(self, mod, n, a):
        if isinstance(n, ast.Import):
            return X(name=a.name if a.asname else a.name.split(".")[0])
        if n.level:
            base = mod.name.split(".") if mod.name else []
            if not is_pkg(mod):
                base = base[:-1]
            if n.level > 1:
                base = base[:len(base) - (n.level - 1)]
            tgt = ".".join(base + (n.module.split(".") if n.module else []))
            if tgt in ("_fast", "gufo.snmp._fast"):
                return self.ext.fast(a.name)
            m = self.w.module(tgt)
            return self.glob(m, a.name)
        full = f"{n.module}.{a.name}"
        if n.module.startswith("gufo.snmp"):
            t = n.module[len("gufo.snmp"):].strip(".")
            if t == "_fast":
                return self.ext.fast(a.name)
            return self.glob(self.w.module(t), a.name)
        if full in ("asyncio.TimeoutError", "concurrent.futures.TimeoutError"):
            return Exc(name="TimeoutError")
        if full == "asyncio.CancelledError":
            return Exc(name="CancelledError")
        return X(name=full)

    def builtin(self, name):
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return Exc(name=name)
        if c is None:
            raise Unsupported(f"name {name}")
        return X(name=f"builtins.{name}")

    # -------------------------------------------------------------- helpers
    def fork(self, st, cond):
        c = simp(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        for v, k in ((True, c), (False, z3.Not(c))):
            s = st.assume(k)
            if feasible(s):
                out.append((s, v))
        return out

    def truth(self, v, st):
        if isinstance(v, B):
            return v.e
        if isinstance(v, (I, R)):
            return v.e != 0
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, Str):
            return z3.BoolVal(bool(v.s))
        if isinstance(v, By):
            return z3.BoolVal(bool(v.b))
        if isinstance(v, U):
            return z3.And(v.e != NONE, v.t)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Enum):
            return self.truth(v.value, st)
        if isinstance(v, O):
            o = st.heap[v.ref]
            if "list" in o:
                return o["n"] != 0
            for m in ("__bool__", "__len__"):
                if "cls" in o and self.method(o["cls"], m):
                    raise Unsupported(m)
            return z3.BoolVal(True)
        if isinstance(v, (F, X, Cls, Co)):
            return z3.BoolVal(True)
        raise Unsupported(f"truth of {v!r}")

    def many(self, nodes, st, sc):
        """[(st, [values])] or Raise"""
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in out:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                star = isinstance(n, ast.Starred)
                for s2, v in self.ev(n.value if star else n, s, sc):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    elif star:
                        if not isinstance(v, Tup):
                            raise Unsupported("star argument")
                        nxt.append((s2, vs + list(v.items)))
                    else:
                        nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def raises(self, name, **k):
        return Raise(e=E(name=name, cause=None, args=(), **k))

    def bind(self, rs, f):
        out = []
        for s, v in rs:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out += f(s, v)
        if len(out) > MAXPATHS:
            raise Unsupported("too many paths")
        return out

    # -------------------------------------------------------------- names
    def lookup(self, name, st, sc):
        k = sc["scope"]
        while k is not None:
            o = st.heap[k]
            if name in o["vars"]:
                return o["vars"][name]
            k = o["up"]
        return self.glob(sc["mod"], name)

    def assign(self, name, v, st, sc):
        s = st.copy()
        k = sc["scope"]
        o = s.heap[k]
        if name in o["nonlocal"]:
            k = o["up"]
            while k is not None and name not in s.heap[k]["vars"]:
                k = s.heap[k]["up"]
            if k is None:
                raise Unsupported("nonlocal")
            o = s.heap[k]
        o["vars"] = dict(o["vars"])
        o["vars"][name] = v
        return s

    # -------------------------------------------------------------- expressions
    def ev(self, n, st, sc):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"{type(n).__name__} line {getattr(n, 'lineno', '?')}")
        return m(n, st, sc)

    def x_Constant(self, n, st, sc):
        return [(st, lift(n.value))]

    def x_Name(self, n, st, sc):
        v = self.lookup(n.id, st, sc)
        if v is None:
            return [(st, self.raises("UnboundLocalError"))]
        return [(st, v)]

    def x_Tuple(self, n, st, sc):
        return self.bind(self.many(n.elts, st, sc), lambda s, vs: [(s, Tup(items=vs))])

    def x_List(self, n, st, sc):
        def mk(s, vs):
            s = s.copy()
            arr = z3.K(z3.IntSort(), NONE)
            for k, v in enumerate(vs):
                arr = z3.Store(arr, k, self.as_u(v))
            return [(s, O(ref=s.new(list=True, arr=arr, lo=z3.IntVal(0), n=z3.IntVal(len(vs)))))]
        return self.bind(self.many(n.elts, st, sc), mk)

    def as_u(self, v):
        if isinstance(v, NoneV):
            return NONE
        if isinstance(v, U):
            return v.e
        raise Unsupported(f"list element {v!r}")

    def x_JoinedStr(self, n, st, sc):
        def part(p):
            return p.value if isinstance(p, ast.FormattedValue) else p
        for p in n.values:
            if isinstance(p, ast.FormattedValue) and (p.format_spec is not None or p.conversion != -1):
                raise Unsupported("format spec")
        return self.bind(self.many([part(p) for p in n.values], st, sc), lambda s, vs: [(s, Fmt(parts=vs))])

    def x_NamedExpr(self, n, st, sc):
        return self.bind(self.ev(n.value, st, sc), lambda s, v: [(self.assign(n.target.id, v, s, sc), v)])

    def x_Lambda(self, n, st, sc):
        return [(st, F(node=n, mod=sc["mod"], scope=sc["scope"], self=None, qual="<lambda>"))]

    def x_IfExp(self, n, st, sc):
        def go(s, v):
            out = []
            for s2, t in self.fork(s, self.truth(v, s)):
                out += self.ev(n.body if t else n.orelse, s2, sc)
            return out
        return self.bind(self.ev(n.test, st, sc), go)

    def x_BoolOp(self, n, st, sc):
        conj = isinstance(n.op, ast.And)

        def go(k, s):
            def nxt(s2, v):
                if k == len(n.values) - 1:
                    return [(s2, v)]
                out = []
                for s3, t in self.fork(s2, self.truth(v, s2)):
                    out += go(k + 1, s3) if t == conj else [(s3, v)]
                return out
            return self.bind(self.ev(n.values[k], s, sc), nxt)
        return go(0, st)

    def x_UnaryOp(self, n, st, sc):
        def go(s, v):
            if isinstance(n.op, ast.Not):
                return [(s, B(e=z3.Not(self.truth(v, s))))]
            if isinstance(n.op, ast.USub) and isinstance(v, (I, R)):
                return [(s, type(v)(e=-v.e))]
            if isinstance(n.op, ast.UAdd) and isinstance(v, (I, R)):
                return [(s, v)]
            raise Unsupported("unary operator")
        return self.bind(self.ev(n.operand, st, sc), go)

    # floats: one rounding per operation, |fl(x) - x| <= 2^-53 |x| (no overflow, no subnormal result: assumed)
    def rounded(self, s, e):
        e = simp(e)
        if z3.is_rational_value(e):
            d = e.denominator_as_long()
            x = e.numerator_as_long() / d
            if x.as_integer_ratio() == (e.numerator_as_long(), d):
                return s, e
        r = fresh("fl", z3.RealSort())
        a = z3.If(e >= 0, e, -e)
        return s.assume(r - e <= EPS * a, e - r <= EPS * a, z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0)), r

    def tofloat(self, s, v):
        if isinstance(v, R):
            return s, v.e
        if isinstance(v, B):
            v = I(e=z3.If(v.e, 1, 0))
        if isinstance(v, I):
            e = z3.ToReal(v.e)
            s, r = self.rounded(s, e)
            if not z3.eq(simp(r), simp(e)):
                s = s.assume(z3.Implies(z3.And(v.e <= 2 ** 53, v.e >= -2 ** 53), r == e))
            return s, r
        raise Unsupported("float of " + repr(v))

    def num(self, v):
        if isinstance(v, Enum):
            return self.num(v.value)
        if isinstance(v, B):
            return I(e=z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
        return v

    def arith(self, s, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            return [(s, self.raises("TypeError"))]
        if isinstance(a, I) and isinstance(b, I):
            ca, cb = simp(a.e), simp(b.e)
            if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.LShift, ast.RShift)):
                if not (z3.is_int_value(ca) and z3.is_int_value(cb)):
                    raise Unsupported("bit operation on a symbolic int")
                x, y = ca.as_long(), cb.as_long()
                return [(s, lift({ast.BitOr: lambda: x | y, ast.BitAnd: lambda: x & y, ast.BitXor: lambda: x ^ y, ast.LShift: lambda: x << y,
                                  ast.RShift: lambda: x >> y}[type(op)]()))]
            if isinstance(op, ast.Add):
                return [(s, I(e=a.e + b.e))]
            if isinstance(op, ast.Sub):
                return [(s, I(e=a.e - b.e))]
            if isinstance(op, ast.Mult):
                return [(s, I(e=a.e * b.e))]
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                out = []
                for s2, z in self.fork(s, b.e == 0):
                    if z:
                        out.append((s2, self.raises("ZeroDivisionError")))
                    else:
                        q, r = fresh("q", z3.IntSort()), fresh("r", z3.IntSort())
                        s3 = s2.assume(a.e == q * b.e + r, z3.If(b.e > 0, z3.And(0 <= r, r < b.e), z3.And(b.e < r, r <= 0)))
                        out.append((s3, I(e=q if isinstance(op, ast.FloorDiv) else r)))
                return out
        if isinstance(a, (I, R)) and isinstance(b, (I, R)):
            s, x = self.tofloat(s, a)
            s, y = self.tofloat(s, b)
            if isinstance(op, ast.Add):
                s, r = self.rounded(s, x + y)
                return [(s, R(e=r))]
            if isinstance(op, ast.Sub):
                s, r = self.rounded(s, x - y)
                return [(s, R(e=r))]
            if isinstance(op, ast.Mult):
                s, r = self.rounded(s, x * y)
                return [(s, R(e=r))]
            if isinstance(op, ast.Div):
                out = []
                for s2, z in self.fork(s, y == 0):
                    if z:
                        out.append((s2, self.raises("ZeroDivisionError")))
                        continue
                    yc = simp(y)
                    if z3.is_rational_value(yc):
                        s3, r = self.rounded(s2, x / yc)
                    else:
                        q = fresh("quot", z3.RealSort())
                        s3, r = self.rounded(s2.assume(q * y == x), q)
                    out.append((s3, R(e=r)))
                return out
        if isinstance(a, By) and isinstance(b, I) and isinstance(op, ast.Mult) or isinstance(a, (U, By)) and isinstance(b, (U, By)) and isinstance(op, ast.Add):
            r = opaque("bytes")
            la = z3.IntVal(len(a.b)) if isinstance(a, By) else a.ln
            if isinstance(op, ast.Mult):
                s = s.assume(r.ln == z3.If(b.e > 0, la * b.e, 0))
            else:
                lb = z3.IntVal(len(b.b)) if isinstance(b, By) else b.ln
                s = s.assume(r.ln == la + lb)
            return [(s.assume(r.e != NONE, r.t == (r.ln != 0)), r)]
        raise Unsupported(f"operator {type(op).__name__} on {a!r} {b!r}")

    def x_BinOp(self, n, st, sc):
        return self.bind(self.many([n.left, n.right], st, sc), lambda s, vs: self.arith(s, n.op, vs[0], vs[1]))

    def cmp(self, s, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            e = same(a, b)
            return [(s, B(e=e if isinstance(op, ast.Is) else z3.Not(e)))]
        x, y = self.num(a), self.num(b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(x, (I, R)) and isinstance(y, (I, R)):
                e = self.real(x) == self.real(y)
            else:
                e = same(a, b)
            return [(s, B(e=e if isinstance(op, ast.Eq) else z3.Not(e)))]
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Tup):
            out, e = [], z3.BoolVal(False)
            for i in b.items:
                (_, v), = self.cmp(s, ast.Eq(), a, i)
                e = z3.Or(e, v.e)
            return [(s, B(e=e if isinstance(op, ast.In) else z3.Not(e)))]
        if isinstance(x, NoneV) or isinstance(y, NoneV):
            return [(s, self.raises("TypeError"))]
        if isinstance(x, (I, R)) and isinstance(y, (I, R)):
            p, q = (x.e, y.e) if type(x) is type(y) else (self.real(x), self.real(y))
            e = {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)]
            return [(s, B(e=e))]
        raise Unsupported(f"comparison of {a!r} {b!r}")

    def real(self, v):
        return z3.ToReal(v.e) if isinstance(v, I) else v.e

    def x_Compare(self, n, st, sc):
        def go(k, s, left):
            def nxt(s2, right):
                def one(s3, v):
                    if k == len(n.ops) - 1:
                        return [(s3, v)]
                    out = []
                    for s4, t in self.fork(s3, self.truth(v, s3)):
                        out += go(k + 1, s4, right) if t else [(s4, v)]
                    return out
                return self.bind(self.cmp(s2, n.ops[k], left, right), one)
            return self.bind(self.ev(n.comparators[k], s, sc), nxt)
        return self.bind(self.ev(n.left, st, sc), lambda s, v: go(0, s, v))

    def x_Attribute(self, n, st, sc):
        return self.bind(self.ev(n.value, st, sc), lambda s, v: self.getattr(s, v, n.attr))

    def bound(self, f, me, st):
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "?") for d in f.node.decorator_list]
        g = F(node=f.node, mod=f.mod, scope=f.scope, self=me, qual=f.qual, owner=getattr(f, "owner", None))
        if "staticmethod" in decs:
            g.self = None
        elif "classmethod" in decs:
            g.self = me if isinstance(me, Cls) else (me.cls if isinstance(me, Enum) else st.heap[me.ref]["cls"])
        return g, decs

    def getattr(self, s, v, name):
        if isinstance(v, O):
            o = s.heap[v.ref]
            if "list" in o:
                return [(s, X(name="list." + name, me=v))]
            if name in o["fields"]:
                return [(s, o["fields"][name])]
            f = self.method(o["cls"], name)
            if f is not None:
                g, decs = self.bound(f, v, s)
                return self.call(s, g, [], {}) if "property" in decs else [(s, g)]
            a = self.classattr(o["cls"], name, s)
            if a is not None:
                return [(s, a)]
            if "ext" in o:
                return self.ext.getattr(self, s, v, o, name)
            return [(s, self.raises("AttributeError"))]
        if isinstance(v, Cls):
            f = self.method(v, name)
            if f is not None:
                g, decs = self.bound(f, v, s)
                if "classmethod" not in decs and "staticmethod" not in decs:
                    g.self = None
                return [(s, g)]
            a = self.classattr(v, name, s)
            if a is not None:
                return [(s, a)]
            return [(s, self.raises("AttributeError"))]
        if isinstance(v, Enum):
            if name == "value":
                return [(s, v.value)]
            if name == "name":
                return [(s, lift(v.name))]
            f = self.method(v.cls, name)
            if f is not None:
                g, decs = self.bound(f, v, s)
                return self.call(s, g, [], {}) if "property" in decs else [(s, g)]
            a = self.classattr(v.cls, name, s)
            if a is not None:
                return [(s, a)]
            return [(s, self.raises("AttributeError"))]
        if isinstance(v, Sup):
            ks = self.mro(s.heap[v.me.ref]["cls"])
            at = [k for k, c in enumerate(ks) if c.node is v.owner.node]
            for k in ks[at[0] + 1:] if at else []:
                f = self.method(k, name)
                if f is not None:
                    return [(s, self.bound(f, v.me, s)[0])]
            raise Unsupported("super()." + name)
        if isinstance(v, NoneV):
            return [(s, self.raises("AttributeError"))]
        if isinstance(v, X):
            return self.ext.attr(self, s, v, name)
        if isinstance(v, (U, By, Str)):
            return [(s, X(name="value." + name, me=v))]
        raise Unsupported(f"attribute {name} of {v!r}")

    def x_Subscript(self, n, st, sc):
        if isinstance(n.slice, ast.Slice) and n.slice.upper is None and n.slice.step is None and n.slice.lower is not None:
            def tail(s, vs):
                v, k = vs
                if not (isinstance(v, O) and "list" in s.heap[v.ref] and isinstance(k, I)):
                    raise Unsupported("slice")
                o, out = s.heap[v.ref], []
                for s2, ok in self.fork(s, k.e >= 0):
                    if not ok:
                        raise Unsupported("slice from the end")
                    s2 = s2.copy()
                    d = z3.If(k.e <= o["n"], k.e, o["n"])
                    out.append((s2, O(ref=s2.new(list=True, arr=o["arr"], lo=simp(o["lo"] + d), n=simp(o["n"] - d)))))
                return out
            return self.bind(self.many([n.value, n.slice.lower], st, sc), tail)
        if isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None or n.slice.step is not None or n.slice.upper is None:
                raise Unsupported("slice")

            def go(s, vs):
                v, k = vs
                if not isinstance(v, U) or not isinstance(k, I):
                    raise Unsupported("slice")
                r = opaque("slice")
                return [(s.assume(r.e != NONE, z3.Implies(k.e >= 0, r.ln == z3.If(k.e < v.ln, k.e, v.ln)), r.t == (r.ln != 0)), r)]
            return self.bind(self.many([n.value, n.slice.upper], st, sc), go)

        def idx(s, vs):
            v, k = vs
            if isinstance(v, (X, Cls)):
                return [(s, v)]        # typing
            if isinstance(v, Tup) and isinstance(k, I) and z3.is_int_value(simp(k.e)):
                j = simp(k.e).as_long()
                if -len(v.items) <= j < len(v.items):
                    return [(s, v.items[j])]
                return [(s, self.raises("IndexError"))]
            if isinstance(v, O) and "list" in s.heap[v.ref] and isinstance(k, I):
                o = s.heap[v.ref]
                out = []
                for s2, ok in self.fork(s, z3.And(k.e < o["n"], k.e >= -o["n"])):
                    if ok:
                        e = z3.Select(o["arr"], z3.If(k.e >= 0, o["lo"] + k.e, o["lo"] + o["n"] + k.e))
                        out.append((s2, self.ext.item(e)))
                    else:
                        out.append((s2, self.raises("IndexError")))
                return out
            raise Unsupported("subscript")
        return self.bind(self.many([n.value, n.slice], st, sc), idx)

    def x_Await(self, n, st, sc):
        return self.bind(self.ev(n.value, st, sc), self.await_)

    def await_(self, s, v):
        if isinstance(v, Co):
            return self.run(s, v.f, v.args, v.kw)
        if isinstance(v, (X, O)):
            return self.ext.await_(self, s, v)
        return [(s, self.raises("TypeError"))]

    def x_Call(self, n, st, sc):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and sc.get("owner") is not None and isinstance(sc.get("me"), O):
            return [(st, Sup(me=sc["me"], owner=sc["owner"]))]

        def withf(s, f):
            def witha(s2, vs):
                pos, kw = vs[:len(n.args)], {}
                if any(isinstance(a, ast.Starred) for a in n.args):
                    pos, rest = vs[:len(vs) - len(n.keywords)], vs[len(vs) - len(n.keywords):]
                else:
                    rest = vs[len(n.args):]
                for k, v in zip(n.keywords, rest):
                    if k.arg is None:
                        if not (isinstance(v, X) and v.name == "kwargs"):
                            raise Unsupported("** argument")
                        if set(kw) & set(v.items):
                            return [(s2, self.raises("TypeError"))]
                        kw.update(v.items)
                        continue
                    if k.arg in kw:
                        return [(s2, self.raises("TypeError"))]
                    kw[k.arg] = v
                return self.call(s2, f, pos, kw)
            return self.bind(self.many(list(n.args) + [k.value for k in n.keywords], s, sc), witha)
        return self.bind(self.ev(n.func, st, sc), withf)

    # -------------------------------------------------------------- calls
    def call(self, s, f, pos, kw):
        if isinstance(f, F):
            if isinstance(f.node, ast.AsyncFunctionDef):
                return [(s, Co(f=f, args=pos, kw=kw))]
            return self.run(s, f, pos, kw)
        if isinstance(f, Cls):
            if self.is_enum(f):
                raise Unsupported("enum lookup")
            s = s.copy()
            o = O(ref=s.new(cls=f, fields={}))
            init = self.method(f, "__init__")
            if init is None:
                return [(s, o)]
            g, _ = self.bound(init, o, s)
            return self.bind(self.call(s, g, pos, kw), lambda s2, v: [(s2, o)])
        if isinstance(f, Exc):
            return [(s, E(name=f.name, cause=None, args=tuple(pos)))]
        if isinstance(f, X) and f.name == "functools.partial" and pos:
            return [(s, X(name="partial", f=pos[0], args=list(pos[1:]), kw=dict(kw)))]
        if isinstance(f, X) and f.name == "partial":
            return self.call(s, f.f, f.args + list(pos), {**f.kw, **kw})
        if isinstance(f, X):
            return self.ext.call(self, s, f, pos, kw)
        if isinstance(f, NoneV):
            return [(s, self.raises("TypeError"))]
        raise Unsupported(f"call of {f!r}")

    def params(self, s, f, pos, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.self is not None:
            pos = [f.self] + list(pos)
        if len(pos) > len(names) and not a.vararg:
            return None
        env = dict(zip(names, pos))
        if a.vararg:
            env[a.vararg.arg] = Tup(items=list(pos[len(names):]))
        more = {}
        for k, v in kw.items():
            if k in env and k in names:
                return None
            if k not in [x.arg for x in a.args + a.kwonlyargs]:
                if not a.kwarg:
                    return None
                more[k] = v
            else:
                env[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = X(name="kwargs", items=more)
        for nm, d in list(zip(reversed(names), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if nm not in env:
                (_, v), = self.ev(d, s, {"mod": f.mod, "scope": f.scope})
                env[nm] = v
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                return None
        return env

    def run(self, s, f, pos, kw):
        """execute the body, or the contract when the callee has one"""
        c = self.contracts.get(f.qual)
        if c is not None and c.model is not None and f.qual != self.current:
            env = self.params(s, f, pos, kw)
            if env is None:
                return [(s, self.raises("TypeError"))]
            return c.model(self, s, env)
        self.inlined.add(f.qual)
        return self.body(s, f, pos, kw)

    def body(self, s, f, pos, kw):
        self.depth += 1
        if self.depth > MAXDEPTH:
            raise Unsupported("recursion")
        try:
            env = self.params(s, f, pos, kw)
            if env is None:
                return [(s, self.raises("TypeError"))]
            s = s.copy()
            scope = s.new(vars=env, up=f.scope, **{"nonlocal": frozenset()})
            sc = {"mod": f.mod, "scope": scope, "qual": f.qual, "owner": getattr(f, "owner", None), "me": f.self}
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, s, sc)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    raise Unsupported("generator")
            loc = self.locals_of(f.node)
            for nm in loc - set(env):
                s.heap[scope]["vars"] = dict(s.heap[scope]["vars"])
                s.heap[scope]["vars"][nm] = None
            out = []
            for s2, ctl in self.block(f.node.body, s, sc):
                if ctl is None:
                    out.append((s2, nv))
                elif ctl[0] == "ret":
                    out.append((s2, ctl[1]))
                elif ctl[0] == "exc":
                    out.append((s2, Raise(e=ctl[1])))
                else:
                    raise Unsupported("control")
            return out
        finally:
            self.depth -= 1

    def locals_of(self, node):
        names, nl = set(), set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, (ast.Nonlocal, ast.Global)):
                    nl.update(c.names)
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    names.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    names.add(c.name)
                walk(c)
        walk(node)
        return names - nl

    # -------------------------------------------------------------- statements
    def block(self, stmts, st, sc):
        out = [(st, None)]
        for n in stmts:
            nxt = []
            for s, ctl in out:
                nxt += self.stmt(n, s, sc) if ctl is None else [(s, ctl)]
            out = nxt
            if len(out) > MAXPATHS:
                raise Unsupported("too many paths")
        return out

    def stmt(self, n, st, sc):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"{type(n).__name__} line {n.lineno}")
        return m(n, st, sc)

    def done(self, rs, f):
        out = []
        for s, v in rs:
            out += [(s, ("exc", v.e))] if isinstance(v, Raise) else f(s, v)
        return out

    def s_Expr(self, n, st, sc):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self.done(self.ev(n.value, st, sc), lambda s, v: [(s, None)])

    def s_Pass(self, n, st, sc):
        return [(st, None)]

    def s_Nonlocal(self, n, st, sc):
        s = st.copy()
        s.heap[sc["scope"]]["nonlocal"] = s.heap[sc["scope"]]["nonlocal"] | frozenset(n.names)
        return [(s, None)]

    def s_Return(self, n, st, sc):
        if n.value is None:
            return [(st, ("ret", nv))]
        return self.done(self.ev(n.value, st, sc), lambda s, v: [(s, ("ret", v))])

    def store(self, t, v, s, sc):
        if isinstance(t, ast.Name):
            return [(self.assign(t.id, v, s, sc), None)]
        if isinstance(t, ast.Attribute):
            def put(s2, o):
                if not isinstance(o, O) or "fields" not in s2.heap[o.ref]:
                    raise Unsupported("attribute store")
                s3 = s2.copy()
                s3.heap[o.ref]["fields"] = dict(s3.heap[o.ref]["fields"])
                s3.heap[o.ref]["fields"][t.attr] = v
                return [(s3, None)]
            return self.done(self.ev(t.value, s, sc), put)
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Tup) and len(t.elts) == len(v.items):
            out = [(s, None)]
            for k, x in zip(t.elts, v.items):
                out = [r for s2, c in out for r in (self.store(k, x, s2, sc) if c is None else [(s2, c)])]
            return out
        raise Unsupported("assignment target")

    def s_Assign(self, n, st, sc):
        def go(s, v):
            out = [(s, None)]
            for t in n.targets:
                out = [r for s2, c in out for r in (self.store(t, v, s2, sc) if c is None else [(s2, c)])]
            return out
        return self.done(self.ev(n.value, st, sc), go)

    def s_AnnAssign(self, n, st, sc):
        if n.value is None:
            return [(st, None)]
        return self.done(self.ev(n.value, st, sc), lambda s, v: self.store(n.target, v, s, sc))

    def s_AugAssign(self, n, st, sc):
        import copy
        load = copy.deepcopy(n.target)
        for k in ast.walk(load):
            if hasattr(k, "ctx"):
                k.ctx = ast.Load()
        rs = self.bind(self.many([load, n.value], st, sc), lambda s, vs: self.arith(s, n.op, vs[0], vs[1]))
        return self.done(rs, lambda s, v: self.store(n.target, v, s, sc))

    def s_If(self, n, st, sc):
        def go(s, v):
            out = []
            for s2, t in self.fork(s, self.truth(v, s)):
                out += self.block(n.body if t else n.orelse, s2, sc)
            return out
        return self.done(self.ev(n.test, st, sc), go)

    def s_FunctionDef(self, n, st, sc):
        if n.decorator_list:
            raise Unsupported("decorator")
        f = F(node=n, mod=sc["mod"], scope=sc["scope"], self=None, qual=sc["qual"] + "." + n.name)
        return [(self.assign(n.name, f, st, sc), None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_Raise(self, n, st, sc):
        if n.exc is None:
            cur = st.ghost.get("handling")
            if not cur:
                return [(st, ("exc", E(name="RuntimeError", cause=None, args=())))]
            return [(st, ("exc", cur[-1]))]

        def go(s, v):
            if isinstance(v, Exc):
                v = E(name=v.name, cause=None, args=())
            if not isinstance(v, E):
                raise Unsupported("raise")
            return [(s, ("exc", v))]
        return self.done(self.ev(n.exc, st, sc), go)

    def s_Assert(self, n, st, sc):
        def go(s, v):
            return [(s2, None if t else ("exc", E(name="AssertionError", cause=None, args=()))) for s2, t in self.fork(s, self.truth(v, s))]
        return self.done(self.ev(n.test, st, sc), go)

    def s_Continue(self, n, st, sc):
        return [(st, ("cont",))]

    def s_Break(self, n, st, sc):
        return [(st, ("brk",))]

    def s_Try(self, n, st, sc):
        out = []
        for s, ctl in self.block(n.body, st, sc):
            if ctl is None:
                out += self.block(n.orelse, s, sc)
            elif ctl[0] != "exc":
                out.append((s, ctl))
            else:
                out += self.handle(n.handlers, s, ctl[1], sc)
        if not n.finalbody:
            return out
        fin = []
        for s, ctl in out:
            for s2, c2 in self.block(n.finalbody, s, sc):
                fin.append((s2, c2 if c2 is not None else ctl))
        return fin

    def handle(self, handlers, s, e, sc):
        for h in handlers:
            if h.type is None:
                hit = True
            else:
                (s, t), = self.ev(h.type, s, sc)
                ts = t.items if isinstance(t, Tup) else [t]
                if not all(isinstance(x, Exc) for x in ts):
                    raise Unsupported("exception class")
                hit = any(x.name in exc_mro(e.name) for x in ts)
            if hit:
                s2 = s.copy()
                s2.ghost["handling"] = s2.ghost.get("handling", ()) + (e,)
                if h.name:
                    s2 = self.assign(h.name, e, s2, sc)
                out = []
                for s3, ctl in self.block(h.body, s2, sc):
                    s3 = s3.copy()
                    s3.ghost["handling"] = s3.ghost["handling"][:-1]
                    out.append((s3, ctl))
                return out
        return [(s, ("exc", e))]

    # loops
    def assigned(self, stmts):
        names = set()
        for b in stmts:
            for c in ast.walk(b):
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    names.add(c.id)
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.add(c.name)
        return names

    def s_While(self, n, st, sc):
        if n.orelse:
            raise Unsupported("while/else")
        # the head: what the loop assigns is unknown, time has passed
        h = st.copy()
        o = h.heap[sc["scope"]]
        o["vars"] = dict(o["vars"])
        for nm in self.assigned(n.body + [ast.Expr(n.test)]):
            o["vars"][nm] = opaque(nm)
        clk = fresh("clk", z3.RealSort())
        h.pc += [clk >= st.clk] + ([clk <= st.ghost["deadline"]] if st.ghost.get("deadline") is not None else [])
        h.clk = clk
        out = []

        def body(s, v):
            rs = []
            for s2, t in self.fork(s, self.truth(v, s)):
                rs += self.block(n.body, s2, sc) if t else [(s2, ("brk",))]
            return rs
        for s, ctl in self.done(self.ev(n.test, h, sc), body):
            if ctl is None or ctl[0] == "cont":
                if len(s.trace) != len(h.trace):
                    self.obl.append(("loop iteration without effect", s, z3.BoolVal(False)))
                for r, x in h.heap.items():
                    y = s.heap[r]
                    for k in x:
                        if r == sc["scope"] and k == "vars":
                            continue
                        if x[k] is not y[k] and not (isinstance(x[k], dict) and x[k] == y[k]):
                            raise Unsupported("loop changes an object")
                if s.ghost.get("registered", ()) != h.ghost.get("registered", ()) or s.ghost.get("deadline") is not h.ghost.get("deadline"):
                    self.obl.append(("loop invariant: reader and writer registrations", s, z3.BoolVal(False)))
            elif ctl[0] == "brk":
                out.append((s, None))
            else:
                out.append((s, ctl))
        return out

    def s_Delete(self, n, st, sc):
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value in (0, -1):
            return self.done(self.ev(t.value, st, sc), lambda s, v: self.done(
                self.call(s, X(name="list.pop", me=v), [lift(t.slice.value)], {}), lambda s2, _: [(s2, None)]))
        raise Unsupported("del")

    def s_With(self, n, st, sc):
        """only contextlib.suppress"""
        if len(n.items) != 1 or n.items[0].optional_vars is not None or not isinstance(n.items[0].context_expr, ast.Call):
            raise Unsupported("with")
        c = n.items[0].context_expr
        (s, f), = self.ev(c.func, st, sc)
        if not (isinstance(f, X) and f.name == "contextlib.suppress") or c.keywords:
            raise Unsupported("with")
        h = ast.ExceptHandler(type=ast.Tuple(elts=list(c.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
        out = []
        for s2, ctl in self.block(n.body, s, sc):
            out += self.handle([h], s2, ctl[1], sc) if ctl is not None and ctl[0] == "exc" else [(s2, ctl)]
        return out

    def s_For(self, n, st, sc):
        """over a tuple of known length"""
        if n.orelse:
            raise Unsupported("for/else")

        def go(s, v):
            if not isinstance(v, Tup):
                raise Unsupported("for")
            live, out = [s], []
            for item in v.items:
                nxt = []
                for s2 in live:
                    for s3, c in self.store(n.target, item, s2, sc):
                        for s4, ctl in ([(s3, c)] if c is not None else self.block(n.body, s3, sc)):
                            if ctl is None or ctl[0] == "cont":
                                nxt.append(s4)
                            else:
                                out.append((s4, None if ctl[0] == "brk" else ctl))
                live = nxt
            return out + [(s2, None) for s2 in live]
        return self.done(self.ev(n.iter, st, sc), go)

    def s_Import(self, n, st, sc):
        s = st
        for a in n.names:
            s = self.assign(a.asname or a.name, X(name=a.name), s, sc)
        return [(s, None)]


# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, qual, props, cases, model=None):
        self.qual, self.props, self.cases, self.model = qual, props, cases, model


def describe(st, model):
    out = {}
    if model is None:
        return out
    for d in model.decls():
        if d.arity() == 0 and len(out) < 24:
            out[d.name()] = str(model[d])
    return out


def verify(world, ext, contracts, c):
    """-> list of obligations"""
    res, seen = [], {}
    t0 = time.monotonic()
    order = []

    def note(name, status, detail="", model=None):
        if name not in seen:
            seen[name] = {"function": c.qual, "name": name, "status": "proved", "paths": 0, "detail": "", "model": None}
            order.append(name)
        o = seen[name]
        o["paths"] += 1
        rank = {"proved": 0, "undecided": 1, "failed": 2}
        if rank[status] > rank[o["status"]]:
            o["status"], o["detail"], o["model"] = status, detail, model
    inl = set()
    try:
        nc = 0
        for case in c.cases(Exec(world, ext, contracts, c.qual)):
            nc += 1
            x = Exec(world, ext, contracts, c.qual)
            st, f, args, kw, post = case["st"], case["f"], case.get("args", []), case.get("kw", {}), case["post"]
            if not feasible(st):
                note("precondition is satisfiable", "undecided", case.get("name", ""))
                continue
            rs = x.body(st, f, args, kw)
            if isinstance(f.node, ast.AsyncFunctionDef):
                pass
            inl |= x.inlined
            n = 0
            for s, v in rs:
                n += 1
                for name, goal in post(st, s, v, x):
                    r, m = (z3.unsat, None) if z3.is_true(simp(goal)) else SOLVER.check(s.pc + [z3.Not(goal)])
                    note(name, "proved" if r == z3.unsat else "failed" if r == z3.sat else "undecided",
                         f"case {case.get('name', '')}: outcome {v!r}; effects {s.trace!r}"[:1500] if r != z3.unsat else "",
                         describe(s, m) if r == z3.sat else None)
            for name, s, goal in x.obl:
                r, m = SOLVER.check(s.pc + [z3.Not(goal)])
                note(name, "proved" if r == z3.unsat else "failed" if r == z3.sat else "undecided", f"case {case.get('name', '')}"
                     if r != z3.unsat else "", describe(s, m) if r == z3.sat else None)
            if n == 0:
                note("some path", "undecided", case.get("name", ""))
        if nc == 0:
            note("cases", "undecided")
    except Exception as e:
        # not understood (Unsupported, Lost, or a construct this file trips over): nothing is decided about this function in this run
        return [{"function": c.qual, "name": "contract", "status": "undecided", "time": round(time.monotonic() - t0, 3),
                 "detail": f"{type(e).__name__}: {e}", "paths": 0}], inl
    for name in order:
        o = seen[name]
        o["time"] = round(time.monotonic() - t0, 3)
        res.append(o)
    return res, inl


def load():
    sp = importlib.util.spec_from_file_location("pycontracts", os.path.join(VERIF, "contracts", "python.py"))
    m = importlib.util.module_from_spec(sp)
    sys.modules["pyvc"] = sys.modules[__name__]
    sp.loader.exec_module(m)
    return m


def tokens(world, x, qual):
    f = x.find(qual)
    n = f.node

    class Strip(ast.NodeTransformer):
        def visit_Expr(self, k):
            return None if isinstance(k.value, ast.Constant) else k

        def generic_visit(self, k):
            super().generic_visit(k)
            return k
    import copy
    m = Strip().visit(copy.deepcopy(n))
    for k in ast.walk(m):
        if hasattr(k, "body") and isinstance(k.body, list) and not k.body:
            k.body = [ast.Pass()]
    import io, tokenize
    src = ast.unparse(ast.fix_missing_locations(m))
    return " ".join(t.string for t in tokenize.generate_tokens(io.StringIO(src).readline) if t.string.strip() and t.type != tokenize.COMMENT)


def main(argv):
    prop = argv[0] if argv and not argv[0].startswith("-") else None
    w = World()
    m = load()
    t0 = time.monotonic()
    out, toks = [], {}
    for q, c in m.CONTRACTS.items():
        if c.cases is None or (prop and prop not in c.props):
            continue
        obl, inl = verify(w, m.EXT, m.CONTRACTS, c)
        x = Exec(w, m.EXT)
        for k in sorted(inl | {q}):
            try:
                if not k.startswith("<") and k not in toks:
                    toks[k] = tokens(w, x, k)
            except (Lost, Unsupported, AttributeError):
                pass
        for o in obl:
            o["inlined"] = sorted(inl)
        out += obl
    for o in m.lemmas():
        if not prop or prop in o["props"]:
            r, md = SOLVER.check(o["cs"])
            out.append({"function": "lemma " + o["name"], "name": "induction", "status": "proved" if r == z3.unsat else "failed" if r == z3.sat else "undecided",
                        "time": 0, "detail": "" if r == z3.unsat else str(md)[:500], "inlined": []})
    json.dump({"obligations": out, "tokens": toks, "solver_s": round(SOLVER.time, 3), "queries": SOLVER.queries,
               "wall": round(time.monotonic() - t0, 3), "assumed": m.ASSUMED}, sys.stdout, indent=1, default=str)


if __name__ == "__main__":
    main(sys.argv[1:])
