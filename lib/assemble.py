"""Assemble the Verus crate from /repo/src + contracts."""
import os, glob, re
from . import rsx


def load_contracts(cdir):
    c = rsx.Contracts()
    for p in sorted(glob.glob(os.path.join(cdir, "*.vc"))):
        c.load(p)
    return c


def props_text(path):
    """vprops.rs as modules that are verified in parallel: one per `//@part`, each with the imports at the head of the file"""
    head, _, rest = open(path).read().partition("\n// ------")
    parts = ("// ------" + rest).split("//@part\n")
    names = ["vprops"] + [f"vprops{i}" for i in range(1, len(parts))]
    pre = "use vstd::prelude::*;\nuse crate::vspec::*;\nuse crate::vshim::*;\n"
    return "\n".join("pub mod %s {\n%s%sverus! {\n%s\n%s\n}\n}" % (n, pre, "".join(f"use crate::{m}::*;\n" for m in names if m != n), head, x)
                     for n, x in zip(names, parts))


def assemble(repo_src, cdir, modules, external=None, props=True):
    """modules: list of files relative to src (e.g. 'ber/header.rs'), in order.
    Returns (text, info)."""
    con = load_contracts(cdir)
    tree = {}
    external = external or {}
    info = {"lost": [], "rules": set(), "dropped": {}, "functions": [], "errors": [], "external": [], "trusted": [], "tokens": {}, "rest": {}}
    for rel in modules:
        path = os.path.join(repo_src, rel)
        src = open(path).read()
        try:
            f = rsx.File(rel, src)
        except (rsx.Lost, IndexError, KeyError) as e:
            info["errors"].append(f"{rel}: {e!r}")
            continue
        em = rsx.Emitter(f, con.files.get(rel))
        em.external = {k: v for (r, k), v in external.items() if r == rel}
        txt = em.emit()
        info["functions"] += [(rel, k) for k in em.fn_items]
        info["external"] += [(rel, k) for k in em.ext_done]
        info["trusted"] += [(rel, k) for k in em.trusted]
        inside = set()
        for fn in f.fns():
            info["tokens"][(rel, fn.key)] = [t.s for t in f.toks[fn.lo:fn.hi]]
            inside |= set(range(fn.lo, fn.hi))
        info["rest"][rel] = [t.s for n, t in enumerate(f.toks) if n not in inside]
        info["lost"] += em.lost
        info["rules"] |= em.rules
        if em.dropped:
            info["dropped"][rel] = em.dropped
        parts = rel[:-3].split("/")
        if parts[-1] == "mod":
            parts = parts[:-1]
        node = tree
        for p in parts:
            node = node.setdefault(p, {})
        node[""] = txt
    out = ["#![allow(unused_imports, dead_code, non_snake_case, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, unused_assignments, unreachable_code, unused_unsafe, private_interfaces)]",
           "use vstd::prelude::*;"]
    for name in ("vshim", "vspec"):
        out.append(f"pub mod {name} {{\nuse vstd::prelude::*;\nuse vstd::seq_lib::*;\nverus! {{\n" +
                   open(os.path.join(cdir, name + ".rs")).read() + "\n}\n}")

    def emit(name, node, depth):
        nm = rsx.modname(name)
        out.append(f"pub mod {nm} {{\nuse vstd::prelude::*;\nuse crate::vspec::*;\nuse crate::vshim::*;")
        if "" in node:
            out.append("verus! {\n" + node[""] + "\n}")
        for k, v in node.items():
            if k:
                emit(k, v, depth + 1)
        out.append("}")
    for k, v in tree.items():
        emit(k, v, 0)
    # the listed properties as lemmas over the contracts
    vp = os.path.join(cdir, "vprops.rs")
    if props and os.path.exists(vp):
        out.append("//@PROPS\n" + props_text(vp) + "\n//@PROPSEND")
    out.append("verus! { fn main() {} }")
    return "\n".join(out) + "\n", info
