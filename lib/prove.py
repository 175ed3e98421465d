"""Extract /repo's current source into a Verus crate, run the verifier, and give every function a status.

statuses: proved      every obligation of the function was discharged in this run
          failed      an obligation of the function is not provable
          undecided   the function could not be brought to the verifier (lost contract anchor, unsupported construct,
                      resource limit): no verdict from the proof for this function in this run
          trusted     the contract is assumed by design (listed in DESIGN.md)
"""
import difflib, hashlib, json, os, re, signal, subprocess, time
from . import assemble

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CDIR = os.path.join(VERIF, "contracts")
BASE = os.path.join(CDIR, "baseline.json")
REPO = os.environ.get("VERIF_REPO", "/repo")
VERUS = ["verus", "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "6", "--rlimit", "60",
         "--num-threads", "8"]


def modules():
    m = json.load(open(os.path.join(CDIR, "modules.json")))
    out = list(m["files"])
    src = os.path.join(REPO, "src")
    out = [f for f in out if os.path.exists(os.path.join(src, f))]
    # files added next to covered ones are taken in as they are (a helper moved to a new file)
    dirs = {os.path.dirname(f) for f in out}
    for d in sorted(dirs):
        for f in sorted(os.listdir(os.path.join(src, d))):
            rel = os.path.join(d, f)
            if f.endswith(".rs") and rel not in out and rel not in m["outside"]:
                out.append(rel)
    return out


def fnkey(k):
    return f"{k[0]} {k[1]}"


def markers(text):
    """[(first line, last line, (file, key))]"""
    res, cur = [], None
    for n, ln in enumerate(text.split("\n"), 1):
        if ln.startswith("//@FN "):
            _, f, k = ln.split(" ", 2)
            cur = (n, (f, k))
        elif ln.startswith("//@END ") and cur:
            res.append((cur[0], n, cur[1]))
            cur = None
    return res


def locate(marks, line):
    for a, b, k in marks:
        if a <= line <= b:
            return k
    return None


def run_verus(path, timeout, extra=()):
    t0 = time.monotonic()
    o, e = path + ".json", path + ".err"
    with open(o, "w") as fo, open(e, "w") as fe:
        q = subprocess.Popen(VERUS + list(extra) + [os.path.basename(path)], cwd=os.path.dirname(path), stdout=fo, stderr=fe,
                             start_new_session=True)
        try:
            rc = q.wait(timeout)
        except subprocess.TimeoutExpired:
            # the solvers it started go with it
            os.killpg(q.pid, signal.SIGKILL)
            q.wait()
            rc = -1
    diags, other = [], []
    for ln in open(e, errors="replace"):
        try:
            d = json.loads(ln)
            if d.get("level") == "error":
                diags.append(d)
        except ValueError:
            other.append(ln)
    try:
        res = json.load(open(o))
    except ValueError:
        res = None
    return rc, res, diags, "".join(other)[-4000:], time.monotonic() - t0


def prove(work, timeout=240, extra=(), max_rounds=8):
    os.makedirs(work, exist_ok=True)
    mods = modules()
    ext, rounds, log, props = {}, 0, [], True
    base = load_base()
    t0 = time.monotonic()
    while True:
        rounds += 1
        text, info = assemble.assemble(os.path.join(REPO, "src"), CDIR, mods, ext, props)
        path = os.path.join(work, "out.rs")
        open(path, "w").write(text)
        rc, res, diags, other, dt = run_verus(path, timeout, extra)
        marks = markers(text)
        vr = (res or {}).get("verification-results", {})
        ran = res is not None and "verified" in vr and not vr.get("encountered-vir-error", False) and "panicked" not in other
        hard = [d for d in diags if d.get("message", "").startswith(("aborting",)) is False]
        if ran and (vr.get("errors", 0) or vr.get("success")):
            break
        if rounds >= max_rounds or rc == -1:
            return {"status": "undecided", "why": "the verifier gave no verdict" if rc != -1 else "verifier time-out", "fns": {},
                    "info": info, "log": log + [d.get("rendered", "")[:1500] for d in hard[:3]] + [other], "wall": time.monotonic() - t0,
                    "verified": 0, "errors": 0, "smt_ms": 0, "obligations": [], "changed": changed(info, base), "rounds": rounds}
        # not a verification result: the text of some function is outside the accepted subset -> give these up, keep the rest
        bad = set()
        for d in hard:
            for sp in d.get("spans", []):
                k = locate(marks, sp.get("line_start", 0))
                if k and sp.get("is_primary", True):
                    bad.add(k)
        new = {k for k in bad if ext.get(k, 0) < 2}
        if props and not new:
            ln = text[:text.find("//@PROPS\n")].count("\n")
            if any(sp.get("line_start", 0) > ln for d in hard for sp in d.get("spans", [])):
                props = False
                log.append("the property lemmas do not fit the changed declarations: left out")
                continue
        if not new:
            ch = changed(info, base)
            new = {k for k in ch if k in info["tokens"] and ext.get(k, 0) < 2}
        log.append("round %d: %s -> given up: %s" % (rounds, (hard[0].get("rendered", "")[:800] if hard else other[-800:]),
                                                      ", ".join(sorted(map(fnkey, new)))))
        if not new:
            rounds = max_rounds - 1
            continue
        for k in new:
            ext[k] = ext.get(k, 0) + 1
    fns = {}
    for k in info["functions"]:
        fns[k] = {"status": "proved", "errors": []}
    for k in info["trusted"]:
        fns[k] = {"status": "trusted", "errors": []}
    for k in info["external"]:
        fns[k] = {"status": "undecided", "errors": ["not brought to the verifier"]}
    lostfn = [x for x in info["lost"]]
    other_fail = []
    for d in hard:
        msg = d.get("message", "")
        k = None
        for sp in sorted(d.get("spans", []), key=lambda s: not s.get("is_primary")):
            k = locate(marks, sp.get("line_start", 0))
            if k:
                break
        # an error about a postcondition of a trait method is primary at the trait: the body span names the function
        spans = [locate(marks, sp.get("line_start", 0)) for sp in d.get("spans", [])]
        bodies = [x for x in spans if x]
        if bodies:
            k = bodies[0] if k is None else k
        if k is None or k not in fns:
            cand = [x for x in bodies if x in fns]
            if not cand:
                if not msg.startswith("aborting"):
                    other_fail.append(d.get("rendered", msg)[:2000])
                continue
            k = cand[0]
        st = fns[k]
        st["errors"].append(d.get("rendered", msg)[:2500])
        if st["status"] == "undecided":
            continue
        st["status"] = "undecided" if ("rlimit" in msg.lower() or "resource limit" in msg.lower() or "timed out" in msg.lower()) else "failed"
    for k, st in fns.items():
        if st["status"] == "failed" and any(x.startswith(f"{k[0]} {k[1]}: ") for x in lostfn):
            st["status"] = "undecided"
            st["errors"].append("contract anchors lost: " + "; ".join(x for x in lostfn if x.startswith(f"{k[0]} {k[1]}: ")))
    obl = []
    smt = 0.0
    for m in (res.get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            obl.append((f["function"], f.get("mode:", f.get("mode", "")), bool(f.get("success")), f.get("time", 0)))
    smt = (res.get("times-ms", {}).get("smt", {}) or {}).get("smt-run", 0)
    return {"status": "ok", "fns": fns, "info": info, "verified": vr["verified"], "errors": vr["errors"], "other_fail": other_fail,
            "smt_ms": smt, "obligations": obl, "wall": time.monotonic() - t0, "log": log, "rounds": rounds,
            "changed": changed(info, base), "text": text, "cmd": " ".join(VERUS + list(extra) + ["out.rs"])}


# ------------------------------------------------------------------ what changed with respect to the text the contracts were written for
def load_base():
    try:
        return json.load(open(BASE))
    except OSError:
        return {"fns": {}, "rest": {}}


def save_base(info):
    json.dump({"fns": {fnkey(k): " ".join(v) for k, v in sorted(info["tokens"].items())},
               "rest": {k: " ".join(v) for k, v in sorted(info["rest"].items())}}, open(BASE, "w"), indent=0, sort_keys=True)


def diff_size(a, b):
    """(number of changed tokens, names called that were not called before)"""
    a, b = a.split(" ") if a else [], b.split(" ") if b else []
    n = 0
    calls = set()
    before = set(a)
    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes():
        if op != "equal":
            n += max(i2 - i1, j2 - j1)
            for j in range(j1, j2):
                if re.match(r"[A-Za-z_]\w*$", b[j]) and j + 1 < len(b) and b[j + 1] in ("(", "!", "::") and b[j] not in before:
                    calls.add(b[j])
    return n, calls


def changed(info, base):
    """{(file, key) or (file, ''): (tokens changed, new calls)} -- '' is the text outside functions"""
    out = {}
    for k, v in info["tokens"].items():
        old = base["fns"].get(fnkey(k))
        new = " ".join(v)
        if old != new:
            out[k] = (10 ** 6, {"new function"}) if old is None else diff_size(old, new)
    for f, v in info["rest"].items():
        old = base["rest"].get(f)
        new = " ".join(v)
        if old != new:
            out[(f, "")] = (10 ** 6, {"new file"}) if old is None else diff_size(old, new)
    return out


SMALL = 8


def small_edit(ch, key):
    """a failing obligation of `key` is reported without an input only when the text it was proved for was edited locally
    (a few tokens, no new calls beyond one callee put for another); a rewritten function whose proof no longer goes through is undecided, not wrong"""
    if key in ch:
        n, calls = ch[key]
        return n <= (SMALL if not calls else 2)
    rel = [(k, v) for k, v in ch.items()]
    return bool(rel) and all(v[0] <= (SMALL if not v[1] else 2) for _, v in rel)


def summary(p):
    h = hashlib.sha256()
    for k, v in sorted(p["info"]["tokens"].items()):
        h.update((fnkey(k) + " ".join(v)).encode())
    return h.hexdigest()[:16]


if __name__ == "__main__":
    import sys
    p = prove(os.path.join(VERIF, "build", "verus"))
    print(p["status"], p.get("why"), p["verified"], "verified", p["errors"], "errors", round(p["wall"], 1), "s", "rounds", p["rounds"])
    for k, s in p["fns"].items():
        if s["status"] not in ("proved",) or "-v" in sys.argv:
            print(" ", s["status"], fnkey(k), (s["errors"] or [""])[0][:300])
    for x in p["info"]["lost"] + p["info"]["errors"] + p["log"] + p.get("other_fail", []):
        print("  note:", x)
    for k, v in p["changed"].items():
        print("  changed:", fnkey(k), v)
    if "--baseline" in sys.argv:
        save_base(p["info"])
