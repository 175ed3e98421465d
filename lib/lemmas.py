"""Which lemmas a property rests on: its own lemmas in contracts/vprops.rs (named cNN...), the lemmas the proofs of its functions
call, and everything those call in turn."""
import os, re
from . import prove

WORD = re.compile(r"[A-Za-z_]\w*")
HEAD = re.compile(r"^\s*(?:pub\s+)?(?:open\s+|closed\s+)?(?:broadcast\s+)?proof\s+fn\s+(\w+)", re.M)


def graph(text):
    """name -> set of the proof functions its text names"""
    hs = [(m.start(), m.group(1)) for m in HEAD.finditer(text)]
    names = {n for _, n in hs}
    g = {}
    for i, (a, n) in enumerate(hs):
        b = hs[i + 1][0] if i + 1 < len(hs) else len(text)
        # the body ends at the closing brace of the function
        depth, j, seen = 0, a, False
        while j < b:
            c = text[j]
            if c == "{":
                depth += 1
                seen = True
            elif c == "}":
                depth -= 1
                if seen and depth == 0 and text[j + 1:j + 2] in ("\n", " ", ""):
                    nxt = text[j + 1:j + 40].lstrip()
                    if not nxt.startswith((",", "else", ".", ")", "&", "=", "{", "|")):
                        break
            j += 1
        g.setdefault(n, set()).update(set(WORD.findall(text[a:j + 1])) & names - {n})
    return g


def roots(prop, text=None):
    text = text or open(os.path.join(prove.CDIR, "vprops.rs")).read()
    p = prop.lower()
    return [n for n in HEAD.findall(text) if p in n.split("_")]


def closure(prop, text, keys):
    if "pub mod vprops" not in text:
        text = text + open(os.path.join(prove.CDIR, "vprops.rs")).read()
    g = graph(text)
    todo = list(roots(prop))
    lines = text.split("\n")
    for a, b, k in prove.markers(text):
        if k in keys:
            todo += [w for w in set(WORD.findall("\n".join(lines[a:b]))) if w in g]
    out = set()
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += list(g.get(n, ()))
    return out


def assumed(text):
    """every contract the verifier takes without proof, by name, from the verified text"""
    out = []
    for m in re.finditer(r"#\[verifier(?:::|\()(external_body|external_type_specification|external)\)?\]\s*(?:#\[[^\]]*\]\s*)*"
                         r"(?:pub(?:\([^)]*\))?\s+)?(?:(?:unsafe|const|exec|open|broadcast|proof)\s+)*(fn|struct|enum|impl|trait|const|static)\s*(?:<[^{;]*?>\s*)?([\w:]*)", text):
        out.append(f"{m.group(1)}: {m.group(2)} {m.group(3)}")
    out += ["axiom: " + n for n in re.findall(r"\baxiom\s+fn\s+(\w+)", text)]
    out += ["specification of a library function: " + re.sub(r"\s+", " ", n) for n in re.findall(r"assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*\(", text)]
    out += ["uninterpreted: " + n for n in re.findall(r"uninterp\s+spec\s+fn\s+(\w+)", text)]
    out += ["assume/admit: " + n for n in re.findall(r"\b((?:assume|admit)\([^;]*\);)", text)]
    n = {}
    for x in out:
        n[x] = n.get(x, 0) + 1
    return [x + (f" (x{c})" if c > 1 else "") for x, c in sorted(n.items())]
