"""Numbers that the source has and the tree the harness was written for had not (harness/literals.json), and the other way
round.  The generators then visit their neighbourhood too.  Only the choice of cases depends on it, no verdict does."""
import difflib, glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "literals.json")
NUM = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?!\w)")
TYP = re.compile(r"\b([iu])(8|16|32|64)\b")


STR = re.compile(r"""b?"((?:[^"\\\n]|\\.)*)"|b?'([^'\\\n]|\\.[0-9a-fA-F]{0,2})'""")


def collect(repo):
    """file -> literals and integer types in order"""
    out = {}
    for f in sorted(glob.glob(repo + "/src/**/*.rs", recursive=True) + glob.glob(repo + "/src/**/*.py", recursive=True)):
        t = open(f, errors="replace").read()
        if f.endswith(".rs"):
            t = re.sub(r"//[^\n]*", "", t).split("#[cfg(test)]")[0]
        else:
            t = re.sub(r"#[^\n]*", "", re.sub(r'"""(?:.|\n)*?"""', "", t))
        out[os.path.relpath(f, repo)] = c = []
        for m in re.finditer(NUM.pattern + "|" + TYP.pattern + "|" + STR.pattern, t):
            if m.group(1):
                x = m.group(1).replace("_", "")
                c.append(int(x) if re.fullmatch(r"0\d+", x) else int(x, 0))
            elif m.group(2):
                c.append(m.group(0))
            else:
                s = m.group(4) if m.group(4) is not None else m.group(5)
                if s and len(s) <= 16:
                    c.append('"' + s)
    return out


def delta(repo):
    """literals added or removed, in order"""
    try:
        base, cur = json.load(open(FILE)), collect(repo)
    except (OSError, ValueError):
        return []
    out = []
    for f in sorted(set(base) | set(cur)):
        a, b = base.get(f, []), cur.get(f, [])
        for op, i, j, k, l in difflib.SequenceMatcher(None, a, b, False).get_opcodes():
            if op != "equal":
                out += b[k:l] + a[i:j]
    return out


def new(repo):
    """-> (sorted integers to visit, octet strings to visit)"""
    vs, bs, run = set(), set(), b""
    for k in delta(repo) + [None]:
        if isinstance(k, int) and k < 256:
            run += bytes([k])
            bs.add(bytes([k]))
        elif run:
            bs |= {run[i:j] for i in range(len(run)) for j in range(i + 2, min(len(run), i + 6) + 1)} if len(run) < 20 else set()
            run = b""
        if k is None:
            break
        if isinstance(k, int):
            if k > 1:
                vs |= {k - 1, k, k + 1, -k}
            if 4 <= k <= 64:
                vs |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
        elif k[0] == '"':
            s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), k[1:])
            s = s.replace("\\0", "\0").replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r")
            bs.add(s.encode("latin1", "replace"))
        else:
            w = int(k[1:])
            n = (1 << w) - 1 if k[0] == "u" else (1 << w - 1) - 1
            vs |= {n, n + 1, -n - 1, -n - 2}
    return sorted(vs), sorted(bs)


if __name__ == "__main__":
    repo = os.environ.get("VERIF_REPO", "/repo")
    if "--write" in sys.argv:
        json.dump(collect(repo), open(FILE, "w"), indent=None, sort_keys=True)
    else:
        print(new(repo))
