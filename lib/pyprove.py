"""Runs the verifier of the Python layer (lib/pyvc.py, in the tooling venv) for one property.
python3 -m lib.pyprove [Cxx] [--baseline]"""
import json, os, subprocess, sys
from . import prove as P

BASE = os.path.join(P.CDIR, "baseline_py.json")


def run(prop=None, timeout=240):
    r = subprocess.run(["python3-vt", os.path.join(P.HERE, "pyvc.py")] + ([prop] if prop else []), capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=P.HERE))
    if r.returncode:
        raise RuntimeError("pyvc: " + r.stderr[-1500:])
    return json.loads(r.stdout)


def prove(prop):
    d = run(prop)
    import re
    d["obligations"] = [o for o in d["obligations"] if not re.match(r"C\d\d:", o["name"]) or o["name"].startswith(prop + ":")]
    if not d["obligations"]:
        return None
    try:
        base = json.load(open(BASE))
    except OSError:
        base = {}
    for o in d["obligations"]:
        # a failed obligation is reported without an input only for a local edit of the text it was proved for
        small, edited = True, False
        for q in o.get("inlined", []):
            if q in d["tokens"] and d["tokens"][q] != base.get(q):
                edited = True
                if q not in base:
                    small = False
                    continue
                n, calls = P.diff_size(base[q], d["tokens"][q])
                small = small and n <= P.SMALL and not calls
        o["small"] = small and edited
        if o.get("model"):
            o["detail"] = (o.get("detail") or "") + "\ncounterexample: " + json.dumps(o["model"])
    return d


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    d = run(*a)
    if "--baseline" in sys.argv:
        json.dump(d["tokens"], open(BASE, "w"), indent=0, sort_keys=True)
    n = {}
    for o in d["obligations"]:
        n[o["status"]] = n.get(o["status"], 0) + 1
        if o["status"] != "proved" or "-v" in sys.argv:
            print(o["status"], o["function"], "|", o["name"], o.get("detail", "")[:600])
    print(n, d["wall"], "s; solver", d["solver_s"], "s;", d["queries"], "queries")
