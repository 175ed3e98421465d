"""Mechanical Rust -> Verus extractor.

Parses just enough of Rust (tokens, items, fn signatures, bodies, loops) to
splice contracts into the *current* text of /repo's functions and to apply the
fixed, stated list of desugarings (see RULES).  Nothing here contains program
logic of gufo_snmp: every executable token of an emitted function comes from
/repo/src at the time of the run.
"""
import re, os
from dataclasses import dataclass, field


class Lost(Exception):
    """A contract anchor does not exist in the current source (undecided, never an alarm)."""


# --------------------------------------------------------------- tokens
TOK = re.compile(r"""
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*(?:[^*]|\*(?!/))*\*/)
|(?P<str>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h)|b?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
|(?P<id>r\#[A-Za-z_][A-Za-z0-9_]*|[A-Za-z_][A-Za-z0-9_]*)
|(?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
|(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X)


@dataclass
class T:
    k: str
    s: str
    a: int
    b: int


def tokenize(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Lost(f"cannot tokenize at {i}: {src[i:i+20]!r}")
        k = m.lastgroup
        if k == "h":
            k = "str"
        for name in ("ws", "lc", "bc", "str", "chr", "life", "id", "num", "op"):
            if m.group(name) is not None:
                k = name
                break
        if k not in ("ws", "lc", "bc"):
            out.append(T(k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_table(toks):
    st, mt = [], {}
    for n, t in enumerate(toks):
        if t.k == "op" and t.s in OPEN:
            st.append(n)
        elif t.k == "op" and t.s in CLOSE:
            o = st.pop()
            mt[o] = n
            mt[n] = o
    return mt


def skip_generics(toks, n):
    """toks[n] is '<': return index after the matching '>'."""
    d = 0
    while True:
        s = toks[n].s
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
        elif s == ">>":
            d -= 2
        elif s == "<<":
            d += 2
        n += 1
        if d <= 0:
            return n


@dataclass
class Fn:
    key: str
    name: str
    lo: int            # token index of first token (attributes excluded)
    kw: int            # index of `fn`
    params: tuple      # token index of ( and )
    arrow: int         # index of -> or -1
    ret: tuple         # token range of return type
    where: int         # index of `where` or -1
    body: tuple        # token index of { and } or None
    hi: int            # token index after the fn
    loops: list = field(default_factory=list)


@dataclass
class Item:
    kind: str
    name: str
    lo: int
    hi: int
    attrs: list
    alo: int           # token index of the first attribute
    fns: list = field(default_factory=list)
    inner: list = field(default_factory=list)
    hdr: tuple = None
    body: tuple = None


class File:
    def __init__(self, path, src):
        self.path, self.src = path, src
        self.toks = tokenize(src)
        self.mt = match_table(self.toks)
        self.items = self.parse_items(0, len(self.toks), None)

    # ------------------------------------------------------------ items
    def parse_items(self, n, end, ctx):
        t, out = self.toks, []
        while n < end:
            alo, attrs = n, []
            while t[n].s == "#":
                m = n + 1
                if t[m].s == "!":
                    m += 1
                e = self.mt[m]
                attrs.append(self.src[t[n].a:t[e].b])
                n = e + 1
            lo = n
            if n >= end:
                break
            # visibility
            if t[n].s == "pub":
                n += 1
                if t[n].s == "(":
                    n = self.mt[n] + 1
            # qualifiers
            q = n
            while t[n].s in ("unsafe", "async", "default", "extern") or (
                    t[n].s == "const" and t[n + 1].s in ("fn", "unsafe", "async")):
                n += 1
                if t[n].k == "str":
                    n += 1
            s = t[n].s
            if s == "fn":
                f = self.parse_fn(lo, n, ctx)
                it = Item("fn", f.name, lo, f.hi, attrs, alo, [f])
                n = f.hi
            elif s in ("use", "const", "static", "type"):
                name = t[n + 1].s if t[n + 1].s != "mut" else t[n + 2].s
                n = self.to_semi(n)
                it = Item(s, name, lo, n, attrs, alo)
            elif s == "mod":
                name = t[n + 1].s
                if t[n + 2].s == ";":
                    n = n + 3
                    it = Item("moddecl", name, lo, n, attrs, alo)
                else:
                    e = self.mt[n + 2]
                    it = Item("mod", name, lo, e + 1, attrs, alo)
                    n = e + 1
            elif s in ("struct", "enum", "union"):
                name = t[n + 1].s
                m = n + 2
                while t[m].s not in ("{", "(", ";"):
                    m = skip_generics(t, m) if t[m].s == "<" else m + 1
                if t[m].s == "{":
                    m = self.mt[m] + 1
                elif t[m].s == "(":
                    m = self.to_semi(m)
                else:
                    m += 1
                it = Item(s, name, lo, m, attrs, alo)
                n = m
            elif s in ("impl", "trait"):
                m = n + 1
                while t[m].s != "{":
                    m = skip_generics(t, m) if t[m].s == "<" else m + 1
                e = self.mt[m]
                hdr = self.norm_header(n, m)
                it = Item(s, hdr, lo, e + 1, attrs, alo)
                it.hdr, it.body = (n, m), (m, e)
                it.inner = self.parse_items(m + 1, e, hdr)
                it.fns = [f for i in it.inner for f in i.fns]
                n = e + 1
            elif t[n].k == "id" and t[n + 1].s == "!":
                m = n + 2
                if t[m].k == "id":
                    m += 1
                e = self.mt[m]
                brace = t[m].s == "{"
                n = e + 1
                if not brace and n < end and t[n].s == ";":
                    n += 1
                it = Item("macro", t[lo].s, lo, n, attrs, alo)
            elif s == ";":
                n += 1
                continue
            else:
                raise Lost(f"{self.path}: unknown item at {self.src[t[n].a:t[n].a+40]!r}")
            out.append(it)
        return out

    def to_semi(self, n):
        t = self.toks
        while t[n].s != ";":
            n = self.mt[n] + 1 if t[n].s in OPEN else n + 1
        return n + 1

    def norm_header(self, n, m):
        """impl/trait header -> key: lifetimes, bounds and visibility removed."""
        t = self.toks
        kw = t[n].s
        i = n + 1
        if kw == "trait":
            return t[i].s
        if t[i].s == "<":
            i = skip_generics(t, i)
        parts = []
        while i < m:
            if t[i].s == "where":
                break
            parts.append(t[i])
            i += 1
        # drop lifetimes
        s, out = 0, []
        for p in parts:
            if p.k == "life":
                continue
            out.append(p.s)
        txt = " ".join(out)
        txt = txt.replace("< ,", "<").replace(", >", ">").replace("< >", "")
        txt = re.sub(r"\s+", " ", txt)
        txt = re.sub(r" ?(<|>|::|\[|\]|,|&|\(|\)|\.) ?", r"\1", txt)
        txt = re.sub(r"for<>", "", txt)
        txt = re.sub(r">for\b", "> for", txt).replace("<_>", "")
        txt = re.sub(r"\bfor&", "for &", txt)
        return txt.strip()

    def parse_fn(self, lo, kw, ctx):
        t = self.toks
        name = t[kw + 1].s
        n = kw + 2
        if t[n].s == "<":
            n = skip_generics(t, n)
        pl, pr = n, self.mt[n]
        n = pr + 1
        arrow, ret, where, body = -1, None, -1, None
        if t[n].s == "->":
            arrow = n
            r0 = n + 1
            n = r0
            while t[n].s not in ("{", ";", "where"):
                if t[n].s == "<":
                    n = skip_generics(t, n)
                elif t[n].s in OPEN:
                    n = self.mt[n] + 1
                else:
                    n += 1
            ret = (r0, n)
        if t[n].s == "where":
            where = n
            while t[n].s not in ("{", ";"):
                n += 1
        if t[n].s == "{":
            body = (n, self.mt[n])
            hi = self.mt[n] + 1
        else:
            hi = n + 1
        key = f"{ctx}::{name}" if ctx else name
        f = Fn(key, name, lo, kw, (pl, pr), arrow, ret, where, body, hi)
        if body:
            f.loops = self.find_loops(body[0] + 1, body[1])
        return f

    def find_loops(self, a, b):
        """[(kw index, body-open index, kind)] in textual order, closures included."""
        t, out, i = self.toks, [], a
        while i < b:
            s = t[i].s
            if s in ("loop", "while", "for") and t[i].k == "id":
                if s == "for" and t[i + 1].s == "<":
                    i += 1
                    continue
                j = i + 1
                while t[j].s != "{":
                    j = self.mt[j] + 1 if t[j].s in ("(", "[") else j + 1
                out.append((i, j, s))
            i += 1
        return out

    def text(self, a, b):
        """source text of tokens [a, b)"""
        if a >= b:
            return ""
        return self.src[self.toks[a].a:self.toks[b - 1].b]

    def fns(self):
        for it in self.items:
            yield from it.fns


# --------------------------------------------------------------- contracts
class Contracts:
    """Sidecar contract files: see DESIGN.md for the format."""

    def __init__(self):
        self.files = {}

    def load(self, path):
        cur = fn = None
        sec = None
        buf = []

        def flush():
            nonlocal sec, buf
            if sec is not None:
                txt = "\n".join(buf).rstrip()
                kind = sec[0]
                tgt = fn if fn is not None and kind not in ("append", "prepend", "drop", "use", "filerw", "in") else cur
                tgt.setdefault(kind, []).append((sec[1], txt))
            sec, buf = None, []

        for ln in open(path):
            ln = ln.rstrip("\n")
            m = re.match(r"@(\w+)\s?(.*)$", ln)
            if not m:
                buf.append(ln)
                continue
            flush()
            k, arg = m.group(1), m.group(2).strip()
            if k == "file":
                cur = self.files.setdefault(arg, {"fns": {}})
                fn = None
            elif k == "fn":
                fn = cur["fns"].setdefault(arg, {})
                fn["_src"] = path
            elif k == "end":
                fn = None
            else:
                sec = (k, arg)
        flush()
        return self


def lexnorm(s):
    return [t.s for t in tokenize(s)]


def find_seq(toks, a, b, seq):
    n = len(seq)
    return [i for i in range(a, b - n + 1) if all(toks[i + j].s == seq[j] for j in range(n))]


# --------------------------------------------------------------- emission
KEEP_DERIVE = ("Clone", "Copy")
DROP_USE = ("pyo3", "rand", "socket2", "std::fmt", "core::str", "std::mem", "std::net", "std::os",
            "std::time", "std::sync", "cipher", "enum_dispatch", "std::marker", "std::convert")
# crates replaced by their contracts in vshim.rs
SHIM_USE = ("nom", "digest", "md5", "sha1", "aes", "des", "cbc", "cfb_mode")


BIN = ("^", "+", "-", "/", "%", "<<", ">>")
PYEXC = ("SnmpDecodeError", "SnmpEncodeError", "NoSuchInstance", "SnmpAuthError", "ValueError", "NotImplementedError", "BlockingIOError", "OSError", "TimeoutError", "RuntimeError", "StopAsyncIteration")
COPY = ("copy_from_slice", "clone_from_slice")
R7 = ("R7 X[a..b].copy_from_slice(c) / clone_from_slice -> X.vf_copy_into(a, b, c), X[a..b].fill(v) -> X.vf_set(a, b, v), X.copy_from_slice(c) -> X.vf_fill(c) "
      "(contract: requires a<=b<=len && b-a==c.len())")
RENAME_MOD = ("bool", "int", "real", "option")


def modname(n):
    """modules whose name collides with a Verus type get an m_ prefix"""
    return "m_" + n if n in RENAME_MOD else n


class Emitter:
    def __init__(self, f: File, spec: dict):
        self.f, self.spec = f, spec or {"fns": {}}
        self.t, self.mt, self.src = f.toks, f.mt, f.src
        self.lost = []
        self.used = set()
        self.used_in = set()
        self.spans = []       # (fn key, marker)
        self.rules = set()
        self.filerw = [tuple(lexnorm(x) if n == 0 else x.strip() for n, x in enumerate(ln.split("==>", 1)))
                       for _, txt in self.spec.get("filerw", []) for ln in txt.splitlines() if "==>" in ln]
        self.dropped = []
        self.external = {}    # fn key -> 1 keep the contract, 2 no contract (undecided functions)
        self.ext_done = []
        self.trusted = []
        self.fn_items = []

    # ---- file level
    def emit(self):
        out = []
        for _, txt in self.spec.get("use", []):
            out.append(txt)
        for _, txt in self.spec.get("prepend", []):
            out.append(txt)
        drops = {a for a, _ in self.spec.get("drop", [])}
        for it in self.f.items:
            try:
                s = self.item(it, drops)
            except (Lost, IndexError, KeyError, AttributeError) as e:
                self.lost.append(f"{self.f.path}: item {it.name}: {e!r}")
                continue
            if s is not None:
                out.append(s)
        for _, txt in self.spec.get("append", []):
            out.append(txt)
        try:
            out += self.enum_dispatch()
        except (Lost, IndexError, KeyError, AttributeError) as e:
            self.lost.append(f"{self.f.path}: enum_dispatch: {e!r}")
        for key in self.spec["fns"]:
            if key not in self.used:
                self.lost.append(f"{self.f.path}: no function `{key}`")
        for a, _ in self.spec.get("in", []):
            if a not in self.used_in:
                self.lost.append(f"{self.f.path}: no impl or trait `{a}`")
        return "\n".join(out)

    def enum_dispatch(self):
        """R9: what #[enum_dispatch] generates: impl Trait for Enum, every method a match that forwards to the variant's value"""
        t, out = self.t, []
        enums = [(it, m.group(1)) for it in self.f.items if it.kind == "enum" for a in it.attrs
                 for m in [re.match(r"#\[enum_dispatch\((\w+)\)\]", a)] if m]
        for it, trait in enums:
            tr = [x for x in self.f.items if x.kind == "trait" and x.name == trait]
            if not tr:
                raise Lost(f"{self.f.path}: trait {trait}")
            self.rules.add("R9 #[enum_dispatch] -> the impl it generates (match self { E::V(x) => x.method(args) })")
            o = self.open_of(it.lo, it.hi)
            variants, i = [], o + 1
            while i < self.mt[o]:
                if t[i].k == "id" and t[i + 1].s == "(":
                    variants.append(t[i].s)
                    i = self.mt[i + 1] + 1
                else:
                    i += 1
            hdr = f"{trait} for {it.name}"
            out.append(f"impl {hdr} {{")
            for a, txt in self.spec.get("in", []):
                if a == hdr:
                    self.used_in.add(a)
                    out.append(txt)
            for f in tr[0].fns:
                key = f"{hdr}::{f.name}"
                sp = self.spec["fns"].get(key, {})
                if key in self.spec["fns"]:
                    self.used.add(key)
                ps = []
                for a, b in self.args(f.params[0]):
                    if t[b - 1].s == "self":
                        continue
                    ps.append(t[a].s if t[a].s != "mut" else t[a + 1].s)
                end = f.hi - 1
                lvl = self.external.get(key, 0)
                out.append(f"//@FN {self.f.path} {key}")
                if lvl:
                    self.ext_done.append(key)
                    out.append("#[verifier::external_body]")
                else:
                    self.fn_items.append(key)
                sig_end = f.arrow if f.arrow >= 0 else f.params[1] + 1
                s = self.emit_range(f.lo, sig_end, None)
                if f.arrow >= 0:
                    s += f" -> ({sp.get('ret', [('vf_r', '')])[0][0]}: {self.emit_range(f.ret[0], f.ret[1], None).strip()})"
                out.append(s)
                if lvl < 2:
                    out += [x for _, x in sp.get("spec", [])]
                arms = " ".join(f"{it.name}::{v}(vf_x) => {{ " + "".join(x for a, x in sp.get("armentry", []) if a in ("", v)) +
                                f" vf_x.{f.name}({', '.join(ps)}) }}" for v in variants)
                ent = "".join(x for _, x in sp.get("entry", []))
                out.append(f"{{ {ent} match self {{ {arms} }} }}" if not lvl else "{ unimplemented!() }")
                out.append(f"//@END {key}")
            out.append("}")
        return out

    def item(self, it, drops):
        if any("cfg(test)" in a.replace(" ", "") for a in it.attrs):
            return None
        if it.name in drops:
            self.dropped.append(it.name)
            return None
        if it.kind in ("macro", "moddecl", "mod"):
            return None
        if it.kind == "impl" and self.t[it.lo].s == "unsafe":
            self.dropped.append(it.name)
            return None
        if it.kind == "use":
            txt = self.f.text(it.lo, it.hi)
            body = re.sub(r"\s+", " ", re.sub(r"^pub(\([a-z]+\))? ", "", txt))
            path = body[4:]
            body = re.sub(r"(?<!std::)\b(?:r#)?(bool|int|real|option)::", r"m_\1::", body)
            local = re.match(r"\w+", path).group(0) in [x.name for x in self.f.items if x.kind == "moddecl"]
            if path.startswith(DROP_USE) and not local or "use " + path.rstrip(";") in drops:
                return None
            if re.match(r"\w+", path).group(0) in SHIM_USE and not local:
                return "use crate::vshim::" + path
            pre = "pub " if txt.startswith("pub") else ""
            return pre + body
        if it.kind == "fn":
            return self.fn(it.fns[0], "pub ")
        if it.kind in ("impl", "trait"):
            return self.impl(it, drops)
        if it.kind in ("const", "static"):
            m = re.match(r"(?:pub(?:\([^)]*\))? )?const (\w+)\s*:\s*(Duration)\s*=\s*(.*);$", self.f.text(it.lo, it.hi))
            if m:
                self.rules.add("R10 `const X: Duration = E` -> an exec const with the checked ensures X == E")
                return f"pub exec const {m.group(1)}: Duration ensures {m.group(1)} == {m.group(3)} {{ {m.group(3)} }}"
            m = re.match(r"(?:pub(?:\([^)]*\))? )?const (\w+)\s*:\s*(\[[^;\]]+;\s*(\w+)\])\s*=\s*\[([\w:]+)\s*;\s*(\w+)\];$", self.f.text(it.lo, it.hi))
            if m:
                self.rules.add("R10 `const X: [T; N] = [v; N]` -> the same as an exec const (its elements are stated as a checked ensures)")
                x, ty, n, v, n2 = m.groups()
                return f"pub exec const {x}: {ty} ensures forall|i: int| 0 <= i < {n} ==> #[trigger] {x}@[i] == {v} {{ proof {{ crate::vshim::need_copy::<{ty[1:].split(";")[0]}>(); }} [{v}; {n2}] }}"
            return "pub " + self.noattr(self.strip_vis(it.lo), it.hi)
        if it.kind == "type":
            return "pub " + self.noattr(self.strip_vis(it.lo), it.hi)
        if it.kind in ("struct", "enum"):
            return self.adt(it) + self.derive_default(it)
        raise Lost(f"{self.f.path}: item kind {it.kind}")

    def strip_vis(self, n):
        if self.t[n].s == "pub":
            n += 1
            if self.t[n].s == "(":
                n = self.mt[n] + 1
        return n

    def noattr(self, a, b):
        return self.emit_range(a, b, None)

    def adt(self, it):
        t = self.t
        der = []
        for a in it.attrs:
            m = re.match(r"#\[derive\((.*)\)\]", a, re.S)
            if m:
                der += [x.strip() for x in m.group(1).split(",")]
        n = self.strip_vis(it.lo)
        keep = [d for d in der if d in KEEP_DERIVE]
        unit_enum = it.kind == "enum" and not any(
            t[i].s in ("(", "{") for i in range(self.open_of(n, it.hi) + 1, it.hi - 1))
        if unit_enum and "PartialEq" in der:
            keep += ["PartialEq", "Eq", "Structural"]
        elif it.kind == "enum":
            keep = [k for k in keep]
        else:
            keep = []
        if "Clone" not in keep and "Copy" in keep:
            keep.remove("Copy")
        head = f"#[derive({', '.join(keep)})]\n" if keep else ""
        if it.kind == "enum":
            return head + "pub " + self.emit_range(n, it.hi, None)
        # struct: make every field public (visibility erased)
        out, i, o = [], n, self.open_of(n, it.hi)
        if o < 0:
            return head + "pub " + self.emit_range(n, it.hi, None)
        c = self.mt[o]
        body, j, start = [], o + 1, True
        while j < c:
            if start:
                while t[j].s == "#":
                    j = self.mt[j + 1] + 1
                if j >= c:
                    break
                j = self.strip_vis(j)
                body.append("pub ")
                start = False
            rw = self.rewrite(j, c, None)
            if rw is not None:
                j = rw[0]
                body.append(rw[1])
                continue
            if t[j].s == "<":
                e = skip_generics(t, j)
                body.append(self.emit_range(j, e, None))
                j = e
                continue
            if t[j].s in OPEN:
                e = self.mt[j] + 1
                body.append(self.emit_range(j, e, None))
                j = e
                continue
            body.append(t[j].s + " ")
            if t[j].s == ",":
                start = True
                body.append("\n")
            j += 1
        return head + "pub " + self.emit_range(n, o + 1, None) + "".join(body) + self.emit_range(c, it.hi, None)

    def derive_default(self, it):
        """#[derive(Default)] on a struct -> the impl it generates (zeros for integers and arrays of integers)"""
        if it.kind != "struct" or not any(re.match(r"#\[derive\(.*\bDefault\b", a, re.S) for a in it.attrs):
            return ""
        t = self.t
        n = self.strip_vis(it.lo)
        o = self.open_of(n, it.hi)
        if t[n + 2].s == "<":
            return ""
        vals = []
        named = o >= 0 and t[o].s == "{"
        for a, b in (self.args(o) if o >= 0 else []):
            while t[a].s == "#":
                a = self.mt[a + 1] + 1
            a = self.strip_vis(a)
            f = ""
            if named:
                f = t[a].s + ": "
                a += 2
            ty = self.emit_range(a, b, None)
            m = re.match(r"\[\s*[ui]\d+\s*;(.*)\]$", ty, re.S)
            v = f"[0; {m.group(1).strip()}]" if m else "0" if re.match(r"[ui](\d+|size)$", ty) else "false" if ty == "bool" else f"<{ty} as Default>::default()"
            vals.append(f + v)
        self.rules.add("R11 #[derive(Default)] -> the impl it generates")
        body = it.name + (" { " + ", ".join(vals) + " }" if named else "(" + ", ".join(vals) + ")" if o >= 0 else "")
        key = f"Default for {it.name}::default"
        sp = self.spec["fns"].get(key, {})
        self.used.add(key)
        self.fn_items.append(key)
        ret = sp.get("ret", [("vf_r", "")])[0][0]
        return (f"\nimpl Default for {it.name} {{\n//@FN {self.f.path} {key}\nfn default() -> ({ret}: Self)\n" +
                "\n".join(x for _, x in sp.get("spec", [])) + f"\n{{ {body} }}\n//@END {key}\n}}")

    def open_of(self, a, b):
        i = a
        while i < b:
            if self.t[i].s == "<":
                i = skip_generics(self.t, i)
                continue
            if self.t[i].s in ("{", "("):
                return i
            i += 1
        return -1

    def impl(self, it, drops):
        n0, m = it.hdr
        is_trait_impl = it.kind == "impl" and " for " in it.name
        pre = "pub " if it.kind == "trait" else ""
        hdr = self.emit_range(n0, m, None)
        hx = self.spec.get("hdr", [])
        out = [pre + hdr + " {"]
        for a, txt in self.spec.get("in", []):
            if a == it.name:
                self.used_in.add(a)
                out.append(txt)
        for x in it.inner:
            if x.kind == "fn":
                f = x.fns[0]
                if f.key in drops:
                    self.dropped.append(f.key)
                    continue
                out.append(self.fn(f, "" if (is_trait_impl or it.kind == "trait") else "pub "))
            else:
                out.append(("" if is_trait_impl or it.kind == "trait" else "pub ") +
                           self.noattr(self.strip_vis(x.lo), x.hi))
        out.append("}")
        m = re.match(r"(Try)?From<", it.name)
        if is_trait_impl and m:
            tr = (m.group(1) or "") + "From"
            have = " ".join(x for k in ("append", "prepend") for _, x in self.spec.get(k, []))
            src, dst = self.from_types(n0, m_end := it.hdr[1])
            key = re.sub(r"\s", "", f"{tr}SpecImpl<{src}>for{dst}")
            if key not in re.sub(r"\s", "", have):
                g = self.impl_generics(n0)
                ret = f"Result<Self, {self.assoc_error(it)}>" if m.group(1) else "Self"
                fn1, fn2 = ("obeys_try_from_spec", "try_from_spec") if m.group(1) else ("obeys_from_spec", "from_spec")
                out.append(f"impl{g} vstd::std_specs::convert::{tr}SpecImpl<{src}> for {dst} {{ open spec fn {fn1}() -> bool {{ false }} "
                           f"open spec fn {fn2}(v: {src}) -> {ret} {{ arbitrary() }} }}")
        return "\n".join(out)

    def impl_generics(self, n0):
        t = self.t
        return self.emit_range(n0 + 1, skip_generics(t, n0 + 1), None) if t[n0 + 1].s == "<" else ""

    def from_types(self, n0, end):
        """(A, B) of `impl<..> [Try]From<A> for B where`"""
        t, i = self.t, n0 + 1
        if t[i].s == "<":
            i = skip_generics(t, i)
        while t[i].s != "<":
            i += 1
        e = skip_generics(t, i)
        a = self.emit_range(i + 1, e - 1, None).strip()
        j = e + 1
        k = j
        while k < end and t[k].s not in ("{", "where"):
            k = skip_generics(t, k) if t[k].s == "<" else k + 1
        return a, self.emit_range(j, k, None).strip()

    def assoc_error(self, it):
        for x in it.inner:
            if x.kind == "type":
                return self.f.text(x.lo, x.hi).split("=")[1].strip(" ;")
        return "()"

    # ---- functions
    def fn(self, f: Fn, vis):
        sp = self.spec["fns"].get(f.key)
        if sp is not None:
            self.used.add(f.key)
        sp = sp or {}
        lvl = self.external.get(f.key, 0)
        saved = (list(self.lost), set(self.rules))
        if not lvl:
            try:
                return self.fn_text(f, vis, sp, 0)
            except (Lost, IndexError, KeyError, AttributeError) as e:
                self.lost, self.rules = saved
                self.lost.append(f"{self.f.path} {f.key}: {e!r}")
                lvl = 1
        self.ext_done.append(f.key)
        return self.fn_text(f, vis, sp, lvl)

    def fn_text(self, f: Fn, vis, sp, lvl):
        n = self.strip_vis(f.lo)
        out = [f"//@FN {self.f.path} {f.key}\n"]
        trusted = "body" in sp or any("external" in (a + x) for a, x in sp.get("attr", []))
        if f.body and not lvl:
            (self.trusted if trusted else self.fn_items).append(f.key)
        if lvl:
            out.append("#[verifier::external_body]\n")
        else:
            for a, txt in sp.get("attr", []):
                out.append(txt + "\n" if txt else a + "\n")
        sig_end = f.arrow if f.arrow >= 0 else f.params[1] + 1
        sig = self.emit_range(n, sig_end, None)
        if "name" in sp:
            self.rules.add("R15 a method of a dropped trait impl or a closure-taking call gets a verifiable name or form (stated in the .vc file)")
            sig = re.sub(r"\bfn\s+\w+", lambda m: "pub fn " + sp["name"][0][0], sig, count=1)
        out.append(vis + sig)
        if f.arrow >= 0:
            ret = self.emit_range(f.ret[0], f.ret[1], None).strip()
            nm = sp.get("ret", [("vf_r", "")])[0][0]
            out.append(f" -> ({nm}: {ret})" if sp and lvl < 2 else f" -> {ret}")
        if f.where >= 0:
            e = f.body[0] if f.body else f.hi - 1
            out.append(" " + self.emit_range(f.where, e, None))
        if lvl < 2:
            for _, txt in sp.get("spec", []):
                out.append("\n" + txt + "\n")
        if not f.body:
            out.append(";")
            return "".join(out)
        if lvl:
            out.append("\n{ unimplemented!() }\n")
        elif "body" in sp:                      # trusted stand-in body (external_body)
            out.append("{ " + sp["body"][0][0] + "\n" + sp["body"][0][1] + " }")
        else:
            self.fn_body(f, sp, out)
        out.append(f"\n//@END {f.key}\n")
        return "".join(out)

    def fn_body(self, f, sp, out):
        out.append("\n{\n")
        for _, txt in sp.get("entry", []):
            out.append(txt + "\n")
        ctx = FnCtx(self, f, sp)
        ts = self.tail_start(f.body[0] + 1, f.body[1]) if "tail" in sp else None
        if ts is not None:
            out.append(self.emit_range(f.body[0] + 1, ts, ctx) if ts > f.body[0] + 1 else "")
            ty = f": {self.emit_range(f.ret[0], f.ret[1], None).strip()}" if f.arrow >= 0 else ""
            out.append(f"\nlet vf_r{ty} = " + self.emit_range(ts, f.body[1], ctx) + ";\n" +
                       "\n".join(x for _, x in sp["tail"]) + "\nvf_r\n")
        else:
            if "tail" in sp:
                self.lost.append(f"{self.f.path} {f.key}: tail expression")
            out.append(self.emit_range(f.body[0] + 1, f.body[1], ctx))
        for _, txt in sp.get("exit", []):
            out.append("\n" + txt + "\n")
        out.append("\n}\n")
        ctx.finish()

    def tail_start(self, a, b):
        """first token of the tail expression of the block a..b (None when there is none)"""
        t, i, start = self.t, a, a
        while i < b:
            if t[i].s == ";":
                start = i = i + 1
                continue
            if i == start and t[i].s in ("while", "for", "loop", "if", "match", "unsafe", "{"):
                j = i
                while True:
                    while t[j].s != "{":
                        j = self.mt[j] + 1 if t[j].s in ("(", "[") else j + 1
                    j = self.mt[j] + 1
                    if j < b and t[j].s == "else":
                        j += 1
                        continue
                    break
                if j >= b:
                    return start
                if t[j].s in (".", "?"):
                    i = j
                    continue
                start = i = j
                continue
            i = self.mt[i] + 1 if t[i].s in OPEN else i + 1
        return start if start < b else None

    # ---- generic emission with rewriting
    def emit_range(self, a, b, ctx):
        t, out, i = self.t, [], a
        prev = t[a].a if a < len(t) else 0
        while i < b:
            out.append(self.src[prev:t[i].a])
            r = self.rewrite(i, b, ctx)
            if r is not None:
                j, txt = r
                out.append(txt)
                prev = t[j - 1].b
                i = j
                continue
            out.append(t[i].s)
            prev = t[i].b
            i += 1
        return "".join(out)

    def args(self, o):
        """split the argument list of the bracket opening at token o"""
        t, c = self.t, self.mt[o]
        res, i, s = [], o + 1, o + 1
        while i < c:
            if t[i].s in OPEN:
                i = self.mt[i] + 1
                continue
            if t[i].s == "|" and (i == s or t[i - 1].s in ("move",)):
                # closure parameters
                i += 1
                while t[i].s != "|":
                    i = self.mt[i] + 1 if t[i].s in OPEN else i + 1
                i += 1
                continue
            if t[i].s == ",":
                res.append((s, i))
                s = i + 1
            i += 1
        if s < c:
            res.append((s, c))
        return res

    def closure(self, a, b, ctx):
        """|p, q| expr -> ([pattern texts], expr text)"""
        t = self.t
        if t[a].s != "|":
            raise Lost(f"{self.f.path}: closure expected")
        i, pats, s = a + 1, [], a + 1
        while t[i].s != "|":
            if t[i].s in OPEN:
                i = self.mt[i] + 1
                continue
            if t[i].s == ",":
                pats.append(self.f.text(s, i))
                s = i + 1
            i += 1
        pats.append(self.f.text(s, i))
        return pats, self.emit_range(i + 1, b, ctx)

    def recv_start(self, i):
        """token index where the postfix expression ending before token i starts"""
        t, j = self.t, i - 1
        while True:
            if t[j].s in CLOSE:
                j = self.mt[j]
                if t[j - 1].k in ("id",) and t[j].s in ("(", "[") or t[j - 1].s in CLOSE:
                    j -= 1
                    continue
                return j
            if t[j].k in ("id", "num"):
                if t[j - 1].s in (".", "::"):
                    j -= 2
                    continue
                return j
            raise Lost(f"{self.f.path}: receiver")

    def chain(self, i):
        """parse .m(args).m(args)… starting at the '.' token i"""
        t, res = self.t, []
        while t[i].s == "." and t[i + 1].k == "id" and t[i + 2].s == "(":
            c = self.mt[i + 2]
            res.append((t[i + 1].s, i + 2, c + 1))
            i = c + 1
        return res

    def result_collect(self, i):
        """X.into_iter().map(f).collect::<Result<Vec<T>, E>>() -> (Vec<T>, E, end)"""
        t = self.t
        e = self.chain(i)[-1][2]
        if [q.s for q in t[e:e + 3]] != [".", "collect", "::"]:
            return None
        g = skip_generics(t, e + 3)
        m = re.match(r"<\s*Result<(Vec<.*>)\s*,\s*(\w+)\s*>\s*>$", self.f.text(e + 3, g), re.S)
        if not m or t[g].s != "(":
            return None
        return m.group(1), m.group(2), self.mt[g] + 1

    def rewrite(self, i, b, ctx):
        t = self.t
        tok = t[i]
        r = ctx.anchor(i) if ctx else None
        if r is not None:
            pre, rest = r
            # emit the anchored statement normally, with the extra text around it
            ctx.inside.add(i)
            return rest, pre
        # file/fn level token rewrites
        for old, new in (self.filerw + (ctx.rw if ctx else [])):
            n = len(old)
            if i + n <= b and all(t[i + k].s == old[k] for k in range(n)):
                if ctx:
                    ctx.rwhit.add(tuple(old))
                return i + n, new
        if tok.s == "_" and i + 1 < len(t) and (t[i + 1].s == ":" and t[i - 1].s in ("(", ",") or t[i - 1].s == "|" and t[i + 1].s == "|"):
            self.rules.add("R0 `_` parameter -> named unused parameter")
            return i + 1, f"_vf{i}"
        if ctx is None:
            return None
        if tok.s in ("for", "while", "loop") and tok.k == "id" and i in ctx.loopidx:
            return self.loop(i, ctx)
        if i in ctx.chains:
            return self.iter_chain(i, ctx)
        if i in ctx.copies:
            d = ctx.copies[i]
            o = self.mt[d - 1]
            recv = self.emit_range(i, o, None)
            a0, rng, depth = o + 1, None, o + 1
            while depth < d - 1:
                if t[depth].s in OPEN:
                    depth = self.mt[depth] + 1
                    continue
                if t[depth].s == "..":
                    rng = depth
                    break
                depth += 1
            if rng is not None:
                self.rules.add(R7)
                lo = self.emit_range(a0, rng, ctx) if rng > a0 else "0"
                hi = self.emit_range(rng + 1, d - 1, ctx) if d - 1 > rng + 1 else f"{recv}.len()"
                c = self.emit_range(*self.args(d + 2)[0], ctx)
                return self.mt[d + 2] + 1, f"{{ let vf_a = {lo}; let vf_b = {hi}; {recv}.{'vf_set' if t[d + 1].s == 'fill' else 'vf_copy_into'}(vf_a, vf_b, {c}) }}"
        if tok.k == "id" and tok.s in ctx.refnames and (t[i + 1].s in BIN or t[i - 1].s in ("^", "/", "%", "+")) and t[i - 1].s not in ("*", ".", "&"):
            self.rules.add("R13 a loop variable bound by reference as an operand of an arithmetic operator is dereferenced")
            return i + 1, f"(*{tok.s})"
        if tok.s == "to_be_bytes" and t[i - 1].s == ".":
            self.rules.add("R12 x.to_be_bytes() -> x.vf_to_be_bytes() (contract: big-endian octets)")
            return i + 1, "vf_to_be_bytes"
        if tok.s in COPY and t[i - 1].s == "." and t[i + 1].s == "(":
            self.rules.add(R7)
            return i + 1, "vf_fill"
        if tok.s == "map_err" and t[i + 1].s == "(":
            a = i + 2
            e = self.mt[i + 1]
            if all(x.k == "id" or x.s == "::" for x in t[a:e]) and t[a].s[0].isupper() and e > a:
                self.rules.add("R1 constructor used as a function value -> closure")
                p = self.f.text(a, e)
                if p.replace(" ", "") in ("Err::Failure", "Err::Error", "nom::Err::Failure", "nom::Err::Error"):
                    q, v = p.replace(" ", "").rsplit("::", 1)
                    return e + 1, f"map_err(|vf_e: SnmpError| -> (vf_r: {q}<SnmpError>) ensures vf_r == {q}::<SnmpError>::{v}(vf_e) {{ {p}(vf_e) }})"
                return e + 1, f"map_err(|vf_e| {p}(vf_e))"
            if t[a].s == "|" and t[a + 2].s == "|" and t[a + 3].s[:2] == "Py" and t[a + 3].s[2:] in PYEXC and t[a + 4].s == "::" and t[a + 5].s == "new_err" and self.mt[a + 6] + 1 == e:
                self.rules.add("R17 map_err(|e| E::V(..)) -> the same closure with the checked ensures `it is V`")
                v = t[a + 1].s if t[a + 1].s != "_" else f"_vf{a}"
                return e + 1, f"map_err(|{v}| -> (vf_r: PyErr) ensures vf_r.cls == PyExc::{t[a + 3].s[2:]} {{ {self.emit_range(a + 3, e, ctx)} }})"
            if t[a].s == "|" and t[a + 2].s == "|" and t[a + 3].k == "id" and t[a + 4].s == "::" and t[a + 5].k == "id" and t[a + 5].s[0].isupper() \
                    and (a + 6 == e or t[a + 6].s == "(" and self.mt[a + 6] + 1 == e):
                self.rules.add("R17 map_err(|e| E::V(..)) -> the same closure with the checked ensures `it is V`")
                v = t[a + 1].s if t[a + 1].s != "_" else f"_vf{a}"
                return e + 1, f"map_err(|{v}| -> (vf_e: {t[a + 3].s}) ensures vf_e is {t[a + 5].s} {{ {self.emit_range(a + 3, e, ctx)} }})"
        if tok.s == "||" and t[i - 1].s == "(" and t[i + 1].k == "id" and t[i + 2].s == "::" and t[i + 3].s == "new_err" and t[i + 4].s == "(" \
                and t[self.mt[i + 4] + 1].s == ")" and t[i + 1].s[:2] == "Py" and t[i + 1].s[2:] in PYEXC:
            self.rules.add("R17 map_err(|e| E::V(..)) -> the same closure with the checked ensures `it is V`")
            e = self.mt[i + 4] + 1
            return e, f"|| -> (vf_r: PyErr) ensures vf_r.cls == PyExc::{t[i + 1].s[2:]} {{ {self.emit_range(i + 1, e, ctx)} }}"
        if tok.k == "id" and t[i + 1].s == "." and t[i + 2].s == "and_then" and t[i + 3].s == "(" and t[i + 4].s == "|" and t[i - 1].s not in (".", "::"):
            self.rules.add("R18 x.and_then(|v| E) on an Option in a variable -> match")
            e = self.mt[i + 3]
            (pat,), body = self.closure(i + 4, e, ctx)
            return e + 1, f"(match {tok.s} {{ Some({pat}) => {body}, None => None }})"
        if tok.s in ("py", "Python") and tok.k == "id" and (
                [x.s for x in t[i:i + 4]] == ["py", ".", "allow_threads", "("] or [x.s for x in t[i:i + 4]] == ["Python", "::", "with_gil", "("]):
            e = self.mt[i + 3]
            a = i + 4 + (t[i + 4].s == "move")
            n = a + 1
            if t[a].s == "||":
                var = None
            else:
                var, n = t[a + 1].s, a + 3
            plain = not any(x.s in ("?", "return") for x in t[n:e])
            if plain or e + 1 == ctx.f.body[1] or t[i - 1].s == "return":
                self.rules.add("R16 py.allow_threads(|| E) / Python::with_gil(|py| E) -> E (in place of the closure call; the GIL is not modelled)")
                body = self.emit_range(n, e, ctx)
                gil = f"let {var} = crate::vshim::Python::vf_gil(); " if var else ""
                return e + 1, "{ " + gil + body + " }"
        if tok.s == "match" and tok.k == "id":
            o = i + 1
            while t[o].s != "{":
                o = self.mt[o] + 1 if t[o].s in ("(", "[") else o + 1
            if t[o - 1].s == "]" and o <= b and self.has_guard(o):
                self.rules.add("R8 `match x[i]` with arm guards -> the scrutinee is copied to a local first")
                return o, "match { let vf_m = " + self.emit_range(i + 1, o, ctx) + "; vf_m } "
        if tok.s == "format" and t[i + 1].s == "!" and ctx.sp.get("fmt"):
            e, txt = self.write_macro(i, ctx, "vf_fmt")
            return e, "{ let mut vf_fmt = crate::vshim::w_new(); let _ = " + txt + "; vf_fmt }"
        if tok.s == "format" and t[i + 1].s == "!":
            self.rules.add("R4 format!(..) -> opaque String (message text is not modelled)")
            return self.mt[i + 2] + 1, "crate::vshim::opaque_string()"
        if tok.s == "write" and t[i + 1].s == "!":
            return self.write_macro(i, ctx)
        if tok.s == "todo" and t[i + 1].s == "!" or tok.s == "panic" and t[i + 1].s == "!" \
                or tok.s == "unreachable" and t[i + 1].s == "!" or tok.s == "unimplemented" and t[i + 1].s == "!":
            self.rules.add("R5 panicking macro -> call of a function with `requires false`")
            return self.mt[i + 2] + 1, "crate::vshim::vf_panic()"
        return None

    def has_guard(self, o):
        t, j, pat = self.t, o + 1, True
        while j < self.mt[o]:
            if pat and t[j].s == "if":
                return True
            if t[j].s == "=>":
                pat = False
            elif t[j].s == ",":
                pat = True
            if t[j].s in OPEN:
                br = t[j].s == "{"
                j = self.mt[j] + 1
                if br and not pat:
                    pat = True
                continue
            j += 1
        return False

    def write_macro(self, i, ctx, dst=None):
        t = self.t
        o = i + 2
        ar = self.args(o)
        if dst is None:
            dst = self.emit_range(ar[0][0], ar[0][1], ctx)
        else:
            ar = [None] + ar
        lit = t[ar[1][0]].s
        if ar[1][1] - ar[1][0] != 1 or t[ar[1][0]].k != "str":
            raise Lost("write! format")
        body = lit[1:-1]
        if "\\" in body or "{{" in body:
            raise Lost("write! format")
        parts = re.split(r"(\{[a-zA-Z_0-9]*\})", body)
        vals = [self.emit_range(a, b, ctx) for a, b in ar[2:]]
        self.rules.add("R3 write!(s, \"..{}..\", a, b) -> s.push literal / push Display(a) in order")
        out = ["{"]
        for p in parts:
            if p == "":
                continue
            if p == "{}":
                out.append(f" crate::vshim::w_disp(&mut {dst}, {vals.pop(0)});")
            elif p[0] == "{":
                out.append(f" crate::vshim::w_disp(&mut {dst}, {p[1:-1]});")
            elif len(p) == 1:
                out.append(f" crate::vshim::w_char(&mut {dst}, '{p}');")
            else:
                raise Lost("write! literal")
        out.append(" Result::<(), ()>::Ok(()) }")
        return self.mt[o] + 1, "".join(out)

    def iter_chain(self, i, ctx):
        """recv.iter()[.take(n)][.map(|x| e)].fold(..)|.reduce(..).unwrap_or(..)|.filter(..).count()"""
        t = self.t
        it = ctx.chains[i]
        ch = self.chain(it)
        recv = self.emit_range(i, it, None)
        if ch[0][0] == "bytes":
            recv = f"crate::vshim::vf_octets({recv})"
        k = ctx.next_loop()
        N, I, A = f"vf_n{k}", f"vf_i{k}", f"vf_acc{k}"
        S = f"vf_s{k}"
        if ch[0][0] == "into_iter":
            ty, err, end = self.result_collect(it)
            pats, body = self.closure(*self.args(ch[1][1])[0], ctx)
            self.rules.add("R2 x.into_iter().map(f).collect::<Result<Vec<_>, _>>() -> index loop pushing until the first Err")
            inv = ctx.loop_inv(k)
            pre, post = ctx.loop_text(k)
            return end, (f"{{ let {S} = {recv}; let {N}: usize = {S}.len(); let mut {A}: {ty} = Vec::new(); let mut vf_e{k}: Option<{err}> = None; let mut {I}: usize = 0; "
                         f"while {I} < {N} && vf_e{k}.is_none()\n{inv}\n{{ {pre} match {{ let {pats[0]} = &{S}[{I}]; {body} }} {{ Ok(vf_x) => {{ {A}.push(vf_x); }} Err(vf_y) => {{ vf_e{k} = Some(vf_y); }} }} {I} += 1; {post} }} "
                         f"match vf_e{k} {{ None => Ok({A}), Some(vf_y) => Err(vf_y) }} }}")
        lim = f"{S}.len()"
        pos, maps, filt = 1, [], []
        end = ch[0][2]
        term = None
        while pos < len(ch):
            name, o, e = ch[pos]
            ar = self.args(o)
            if name == "take":
                x = self.emit_range(*ar[0], ctx)
                lim = f"crate::vshim::umin({lim}, {x})"
            elif name == "map":
                maps.append(self.closure(*ar[0], ctx))
            elif name == "filter":
                filt.append(self.closure(*ar[0], ctx))
            elif name == "fold":
                init = self.emit_range(*ar[0], ctx)
                term = ("fold", init, self.closure(*ar[1], ctx))
                end = e
                break
            elif name == "reduce":
                cl = self.closure(*ar[0], ctx)
                nm, o2, e2 = ch[pos + 1]
                if nm not in ("unwrap_or", "unwrap_or_default"):
                    raise Lost("reduce without unwrap_or")
                d = self.emit_range(*self.args(o2)[0], ctx) if nm == "unwrap_or" else "0"
                term = ("reduce", d, cl)
                end = e2
                break
            elif name in ("all", "any"):
                term = (name, None, self.closure(*ar[0], ctx))
                end = e
                break
            elif name in ("count", "collect"):
                term = (name, None, None)
                end = e
                break
            else:
                raise Lost(f"iterator adaptor {name}")
            pos += 1
        if term is None:
            raise Lost("iterator chain")
        self.rules.add("R2 slice iterator chain (take/map/filter + fold/reduce/count/collect/all/any) -> index loop with the same closure bodies")

        def elem(idx):
            e = f"{S}[{idx}]" if ch[0][0] == "bytes" else f"&{S}[{idx}]"
            for pats, body in maps:
                if pats[0].startswith("&") and e.startswith("&"):
                    e = f"{{ let {pats[0][1:].strip()} = {e[1:]}; {body} }}"
                else:
                    e = f"{{ let {pats[0]} = {e}; {body} }}"
            return e
        inv = ctx.loop_inv(k)
        pre, post = ctx.loop_text(k)
        if term[0] == "fold":
            p, body = term[2]
            txt = (f"{{ let {S}: &[u8] = &{recv}; let {N}: usize = {lim}; let mut {A} = {term[1]}; let mut {I}: usize = 0; "
                   f"while {I} < {N}\n{inv}\n{{ {pre} {A} = {{ let {p[0]} = {A}; let {p[1]} = {elem(I)}; {body} }}; {I} += 1; {post} }} {A} }}")
        elif term[0] == "reduce":
            p, body = term[2]
            txt = (f"{{ let {S}: &[u8] = &{recv}; let {N}: usize = {lim}; if {N} == 0 {{ {term[1]} }} else {{ let mut {A} = {elem(0)}; let mut {I}: usize = 1; "
                   f"while {I} < {N}\n{inv}\n{{ {pre} {A} = {{ let {p[0]} = {A}; let {p[1]} = {elem(I)}; {body} }}; {I} += 1; {post} }} {A} }} }}")
        elif term[0] in ("all", "any"):
            if filt:
                raise Lost("filter + " + term[0])
            p, body = term[2]
            e = elem(I)
            if p[0].startswith("&") and e.startswith("&"):
                st = f"{{ let {p[0][1:].strip()} = {e[1:]}; {body} }}"
            else:
                st = f"{{ let {p[0]} = {e}; {body} }}"
            go, init = (A, "true") if term[0] == "all" else ("!" + A, "false")
            txt = (f"{{ let {S}: &[u8] = &{recv}; let {N}: usize = {lim}; let mut {A}: bool = {init}; let mut {I}: usize = 0; "
                   f"while {I} < {N} && {go}\n{inv}\n{{ {pre} {A} = {st}; {I} += 1; {post} }} {A} }}")
        elif term[0] == "collect":
            if filt:
                raise Lost("filter + collect")
            txt = (f"{{ let {S}: &[u8] = &{recv}; let {N}: usize = {lim}; let mut {A} = Vec::new(); let mut {I}: usize = 0; "
                   f"while {I} < {N}\n{inv}\n{{ {pre} {A}.push({elem(I)}); {I} += 1; {post} }} {A} }}")
        else:
            cond = "true"
            if filt:
                pats, body = filt[0]
                if pats[0].startswith("&"):
                    cond = f"{{ let {pats[0][1:].strip()} = &{S}[{I}]; {body} }}"
                else:
                    cond = f"{{ let vf_x = &{S}[{I}]; let {pats[0]} = &vf_x; {body} }}"
            txt = (f"{{ let {S}: &[u8] = &{recv}; let {N}: usize = {lim}; let mut {A}: usize = 0; let mut {I}: usize = 0; "
                   f"while {I} < {N}\n{inv}\n{{ {pre} if {cond} {{ {A} += 1; }} {I} += 1; {post} }} {A} }}")
        return end, txt

    def loop(self, i, ctx):
        t = self.t
        kw, o, kind = ctx.loopidx[i]
        c = self.mt[o]
        k = ctx.next_loop()
        inv = ctx.loop_inv(k)
        pre, post = ctx.loop_text(k)
        bf = ctx.sec("loopbefore", k)
        af = ctx.sec("loopafter", k)
        if bf:
            bf = bf + "\n"
        if af:
            af = "\n" + af
        if kind == "loop":
            body = self.emit_range(o + 1, c, ctx)
            return c + 1, f"{bf}loop\n{inv}\n{{ {pre} {body} {post} }}{af}"
        if kind == "while":
            cond = self.emit_range(kw + 1, o, ctx)
            if t[kw + 1].s == "let":
                # while let P = E { B } -> loop { match E { P => { B } _ => break } }
                raise Lost("while let")
            body = self.emit_range(o + 1, c, ctx)
            return c + 1, f"{bf}while {cond}\n{inv}\n{{ {pre} {body} {post} }}{af}"
        # for PAT in EXPR
        j = kw + 1
        while t[j].s != "in":
            j = self.mt[j] + 1 if t[j].s in OPEN else j + 1
        pat = self.f.text(kw + 1, j)
        e0, e1 = j + 1, o
        # A..B at depth 0?
        rng, d = None, e0
        while d < e1:
            if t[d].s in OPEN:
                d = self.mt[d] + 1
                continue
            if t[d].s in ("..", "..="):
                rng = d
                break
            d += 1
        I, N, S = f"vf_i{k}", f"vf_n{k}", f"vf_s{k}"
        self.rules.add("R6 `for` over a range / slice iterator / custom iterator -> while loop with an explicit index (or next())")
        if rng is not None:
            lo = self.emit_range(e0, rng, ctx)
            hi = self.emit_range(rng + 1, e1, ctx)
            if t[rng].s == "..=":
                raise Lost("inclusive range loop")
            body = self.emit_range(o + 1, c, ctx)
            p = pat if pat != "_" else "_vf"
            return c + 1, (f"{bf}{{ let mut {I} = {lo}; let {N} = {hi}; while {I} < {N}\n{inv}\n"
                           f"{{ let {p} = {I}; {I} += 1; {pre} {body} {post} }} {af} }}")
        # find .iter() chain in EXPR
        its = [x for x in range(e0, e1) if t[x].s == "." and t[x + 1].s == "iter" and t[x + 2].s == "("]
        if its:
            x = its[0]
            ch = self.chain(x)
            names = [q[0] for q in ch]
            recv = self.emit_range(e0, x, ctx)
            amp = "&" + pat if False else pat
            lead = f"let {pat} = &{S}[vf_j{k}];"
            if pat.startswith("&"):
                lead = f"let {pat[1:].strip()} = {S}[vf_j{k}];"
            if names == ["iter"]:
                body = self.emit_range(o + 1, c, ctx)
                return c + 1, (f"{bf}{{ let {S} = &{recv}; let {N} = {S}.len(); let mut {I}: usize = 0; while {I} < {N}\n{inv}\n"
                               f"{{ let vf_j{k} = {I}; {I} += 1; {lead} {pre} {body} {post} }} {af} }}")
            if names == ["iter", "rev"]:
                body = self.emit_range(o + 1, c, ctx)
                return c + 1, (f"{bf}{{ let {S} = &{recv}; let mut {I}: usize = {S}.len(); while {I} > 0\n{inv}\n"
                               f"{{ {I} -= 1; let vf_j{k} = {I}; {lead} {pre} {body} {post} }} {af} }}")
            if names == ["iter", "enumerate"]:
                m = re.match(r"\(\s*([a-z_0-9]+)\s*,\s*(&?)\s*([a-z_0-9]+)\s*\)$", pat)
                if not m:
                    raise Lost("enumerate pattern")
                body = self.emit_range(o + 1, c, ctx)
                am = "" if m.group(2) else "&"
                return c + 1, (f"{bf}{{ let {S} = &{recv}; let {N} = {S}.len(); let mut {I}: usize = 0; while {I} < {N}\n{inv}\n"
                               f"{{ let {m.group(1)} = {I}; let {m.group(3)} = {am}{S}[{I}]; {I} += 1; {pre} {body} {post} }} {af} }}")
            if names == ["iter", "zip", "enumerate"]:
                m = re.match(r"\(\s*([a-z_0-9]+)\s*,\s*\(\s*([a-z_0-9]+)\s*,\s*([a-z_0-9]+)\s*\)\s*\)$", pat)
                za = self.args(ch[1][1])[0]
                # other.iter()
                if not m or [q.s for q in t[za[1] - 4:za[1]]] != [".", "iter", "(", ")"]:
                    raise Lost("zip pattern")
                other = self.emit_range(za[0], za[1] - 4, ctx)
                ctx.refnames |= {m.group(2), m.group(3)}
                body = self.emit_range(o + 1, c, ctx)
                return c + 1, (f"{bf}{{ let {S} = &{recv}; let vf_z{k} = &{other}; let {N} = crate::vshim::umin({S}.len(), vf_z{k}.len()); let mut {I}: usize = 0; while {I} < {N}\n{inv}\n"
                               f"{{ let {m.group(1)} = {I}; let {m.group(2)} = &{S}[{I}]; let {m.group(3)} = &vf_z{k}[{I}]; {I} += 1; {pre} {body} {post} }} {af} }}")
            raise Lost(f"for over {names}")
        if all(q.k == "id" for q in t[e0:e1]):
            v = self.f.text(e0, e1)
            body = self.emit_range(o + 1, c, ctx)
            return c + 1, (f"{bf}{{ let mut {S} = {v}; loop\n{inv}\n{{ let {pat} = match {S}.next() {{ Some(vf_x) => vf_x, None => break }}; {pre} {body} {post} }} {af} }}")
        raise Lost("for loop shape")


class FnCtx:
    def __init__(self, em, f, sp):
        self.em, self.f, self.sp = em, f, sp
        self.loopidx = {l[0]: l for l in f.loops}
        self.n = 0
        self.inside = set()
        t = em.t
        self.rw = []
        self.rwhit = set()
        for _, txt in sp.get("rw", []):
            for ln in txt.splitlines():
                if "==>" in ln:
                    a, b = ln.split("==>", 1)
                    self.rw.append((lexnorm(a), b.strip()))
        self.refnames = set()
        self.chains = {}
        a, b = f.body[0] + 1, f.body[1]
        for i in range(a, b):
            if t[i].s == "." and t[i + 1].s in ("iter", "into_iter", "bytes") and t[i + 2].s == "(":
                names = [q[0] for q in em.chain(i)]
                if names == ["into_iter", "map"] and em.result_collect(i) or any(x in ("fold", "reduce", "count", "collect", "all", "any") for x in names):
                    try:
                        self.chains[em.recv_start(i)] = i
                    except Lost:
                        pass
        # X[A..B].copy_from_slice(C)
        self.copies = {}
        for i in range(a, b):
            if t[i].s == "." and t[i + 1].s in COPY + ("fill",) and t[i + 2].s == "(" and t[i - 1].s == "]":
                try:
                    self.copies[em.recv_start(i)] = i
                except Lost:
                    pass
        self.total = len(f.loops) + len(self.chains)
        self.anchors = {}
        for kind in ("before", "after"):
            for arg, txt in sp.get(kind, []):
                nth = 0
                m = re.match(r"#(\d+)\s+(.*)$", arg)
                if m:
                    nth, arg = int(m.group(1)), m.group(2)
                seq = lexnorm(arg)
                hits = find_seq(t, a, b, seq)
                if len(hits) <= nth:
                    em.lost.append(f"{em.f.path} {f.key}: anchor `{arg}`")
                    continue
                if kind == "before":
                    self.anchors.setdefault(hits[nth], []).append(txt)
                else:
                    self.anchors.setdefault(hits[nth] + len(seq), []).append(txt)
        want = {int(a) for k in ("loop", "loopbegin", "loopend", "loopbefore", "loopafter") for a, _ in sp.get(k, [])}
        if want and max(want) >= self.total:
            em.lost.append(f"{em.f.path} {f.key}: loop {max(want)} (function has {self.total})")
        self.want = want

    def anchor(self, i):
        if i in self.anchors and i not in self.inside:
            return "\n" + "\n".join(self.anchors[i]) + "\n", i
        return None

    def next_loop(self):
        k = self.n
        self.n += 1
        return k

    def sec(self, kind, k):
        return "\n".join(txt for a, txt in self.sp.get(kind, []) if int(a) == k)

    def loop_inv(self, k):
        return self.sec("loop", k)

    def loop_text(self, k):
        return self.sec("loopbegin", k), self.sec("loopend", k)

    def finish(self):
        for old, _ in self.rw:
            if tuple(old) not in self.rwhit:
                self.em.lost.append(f"{self.em.f.path} {self.f.key}: rewrite `{' '.join(old)}`")
