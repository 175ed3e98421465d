"""The check of one property: discharge its contract obligations on /repo's current source, look for a concrete failing
input with the replay harness, write the evidence file, report."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time, traceback
from . import lemmas, prove, propmap

VERIF = prove.VERIF
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/vp/venv/bin/python"

QUICK_BUDGET = {"C18": 30, "C19": 20}
STALL = 60          # a single case which makes no progress for this long is a hang


def load_meta():
    from . import meta
    return meta.P


# ------------------------------------------------------------------ harness
class Harness:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.pkg, self.mods, self.log, self.err = None, [], [], None

    def build(self):
        sys.path.insert(0, HARNESS)
        import build as b
        try:
            self.pkg, self.mods, self.log = b.build()
        except SystemExit as e:
            self.err = str(e)

    def env(self):
        e = dict(os.environ)
        e.update(VH_MODS=",".join(self.mods), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=self.pkg + ":" + HARNESS, RUST_BACKTRACE="0", PYTHONFAULTHANDLER="1")
        return e

    def run(self, budget, seed=None, tag=""):
        """-> dict(result json | {'crash':..., 'kind','case'})"""
        d = os.path.join(BUILD, "run")
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, f"{self.prop}.{os.getpid()}{tag}")
        out, cur = base + ".out", base + ".cur"
        for f in (out, cur):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [PY, os.path.join(HARNESS, "run.py"), self.prop, "--tier", self.tier, "--seed", str(self.seed if seed is None else seed),
               "--budget", str(budget), "--out", out, "--cur", cur]
        err = open(base + ".err", "w+b")
        p = subprocess.Popen(cmd, cwd=HARNESS, env=self.env(), stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        last, since, t0, hang = -1, time.monotonic(), time.monotonic(), False
        while True:
            try:
                p.wait(1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            n = self.progress(cur)[0]
            now = time.monotonic()
            if n != last:
                last, since = n, now
            if now - since > STALL or now - t0 > budget + 2 * STALL:
                hang = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        res = None
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            pass
        err.seek(0, 2)
        size = err.tell()
        err.seek(max(0, size - 3000))
        etxt = err.read().decode(errors="replace")
        err.close()
        n, k, c = self.progress(cur)
        for f in (out, cur, base + ".err"):
            if os.path.exists(f):
                os.unlink(f)
        if res is not None and not hang:
            res["stderr"] = etxt[-400:]
            return res
        base = {"cases": n, "counts": {}, "skipped": {}, "distinct": n, "samples": [], "seconds": round(time.monotonic() - t0, 1), "violation": None}
        if k is None:
            base["broken"] = f"the harness did not start (exit {p.returncode}): {etxt}"
            return base
        if hang:
            msg = f"no progress for {STALL} s: the call does not return"
        elif p.returncode < 0:
            msg = f"the process was ended by signal {-p.returncode} ({signal.Signals(-p.returncode).name})"
        else:
            base["broken"] = f"the harness ended with {p.returncode}: {etxt}"
            return base
        base["violation"] = {"kind": k, "case": c, "message": msg, "stderr": etxt[-1500:]}
        return base

    @staticmethod
    def progress(cur):
        try:
            with open(cur, "rb") as f:
                b = f.read()
            n, ln = struct.unpack("<QQ", b[:16])
            if n == 0:
                return 0, None, None
            d = json.loads(b[16:16 + ln])
            return n, d["kind"], d["case"]
        except (OSError, ValueError, struct.error):
            return 0, None, None

    def replay(self, path):
        """1 fails, 0 holds, 2 cannot tell"""
        try:
            p = subprocess.run([PY, os.path.join(HARNESS, "run.py"), self.prop, "--replay", path], cwd=HARNESS, env=self.env(),
                               capture_output=True, text=True, timeout=STALL + 30)
        except subprocess.TimeoutExpired:
            return 1, "does not return"
        if p.returncode < 0:
            return 1, f"signal {-p.returncode}"
        if p.returncode in (0, 1, 2) and ("FAILS:" in p.stdout or "holds on this case" in p.stdout or "cannot be replayed" in p.stdout):
            return p.returncode, p.stdout.strip()[-600:]
        # unexpected exception escaping the case
        return 1, (p.stdout + p.stderr)[-800:]


def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(data, indent=1)
    path = os.path.join(d, f"{prop}-{hashlib.sha256(b.encode()).hexdigest()[:12]}.json")
    open(path, "w").write(b + "\n")
    return path


def known():
    out = []
    try:
        for ln in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            if ln.startswith("finding: "):
                out.append(json.loads(ln[9:]))
    except OSError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    h = Harness(prop, tier, seed)
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        d = json.load(open(path))
        if "case" not in d:
            print("this replay file names a failed proof obligation without an input:\n" + d.get("obligation", ""))
            p = prove.prove(os.path.join(BUILD, "verus-" + prop))
            bad = [prove.fnkey(k) for k, s in p["fns"].items() if s["status"] == "failed"]
            print("failing now:", bad)
            return 1 if d.get("function") in bad else 0
        h.build()
        rc, msg = h.replay(path)
        print(msg)
        return rc
    t0 = time.monotonic()
    meta = load_meta()[prop]
    P = {}

    def do_prove():
        try:
            from . import pyprove
        except ImportError:
            pyprove = None
        try:
            if any(True for _ in propmap.PROPS.get(prop, [])):
                P["v"] = prove.prove(os.path.join(BUILD, "verus-" + prop), timeout=300)
        except Exception:
            P["verr"] = traceback.format_exc()
        if pyprove is not None:
            try:
                P["p"] = pyprove.prove(prop)
            except Exception:
                P["perr"] = traceback.format_exc()
    th = threading.Thread(target=do_prove)
    th.start()
    h.build()
    if h.err:
        th.join()
        print(h.err)
        print("CHECK ERROR: /repo does not build")
        return 2
    budget = {"quick": QUICK_BUDGET.get(prop, 25), "thorough": 420}[tier]
    res = h.run(budget)
    th.join()
    v, py = P.get("v"), P.get("p")

    failed, undecided, proved, trusted = [], [], [], []
    if v:
        for k, s in v["fns"].items():
            if propmap.relevant(prop, k):
                {"failed": failed, "undecided": undecided, "proved": proved, "trusted": trusted}[s["status"]].append(k)
    lem, lem_ok, axioms = [], [], []
    if v and v["status"] == "ok":
        need = lemmas.closure(prop, v["text"], set(proved + failed + undecided))
        seen = {}
        for fn, mode, ok, _ in v["obligations"]:
            n = fn.split("::")[-1]
            if mode == "proof" and n in need:
                seen[n] = seen.get(n, True) and ok
        axioms = sorted(n for n in need if n not in seen and re.search(r"axiom fn %s\b" % n, v["text"]))
        # a lemma of the property which the verifier did not get to counts as not discharged
        for n in lemmas.roots(prop):
            seen.setdefault(n, False)
        lem = sorted(seen)
        lem_ok = [n for n in lem if seen[n]]
    pfailed = [o for o in (py or {}).get("obligations", []) if o["status"] == "failed"]
    pund = [o for o in (py or {}).get("obligations", []) if o["status"] == "undecided"]
    alarms = []
    if v and v["status"] == "ok":
        # an unedited function fails because of a callee: when that callee itself could not be decided, neither is this
        open_edit = any(c[1] and v["fns"].get(c, {}).get("status") == "undecided" for c in v["changed"])
        for k in failed:
            alarms.append({"function": prove.fnkey(k), "edit": v["changed"].get(k),
                           "small": prove.small_edit(v["changed"], k) and (k in v["changed"] or not open_edit),
                           "obligation": "\n".join(v["fns"][k]["errors"][:3])})
    for o in pfailed:
        alarms.append({"function": o["function"], "small": o.get("small", False), "obligation": o["name"] + "\n" + o.get("detail", ""), "python": True,
                       "model": o.get("model")})

    if v and v["status"] == "ok" and not failed and not undecided:
        got = {o[0].split("::")[-1] for o in v["obligations"]}
        for n in lem:
            if n not in lem_ok and n in got and v["changed"]:
                alarms.append({"function": "lemma " + n, "small": prove.small_edit(v["changed"], None),
                               "obligation": "\n".join(x for x in v["other_fail"] if n in x)[:3000] or n})

    extra = []
    found = (seed, budget)
    # search harder for an input where the proof does not carry the property: an obligation failed, or the verifier
    # could not decide a changed function
    unsure = (v is not None and v["status"] != "ok") or any(
        k in v["changed"] for k in undecided) if v else False
    if res["violation"] is None and not res.get("broken") and (alarms or unsure or pund):
        for j in range(4 if alarms else 2):
            sd = seed + 1000 * (j + 1)
            r2 = h.run(50, seed=sd, tag=f".{sd}")
            extra.append({"seed": sd, "cases": r2["cases"]})
            if r2["violation"]:
                r2["cases"] += res["cases"]
                res, found = r2, (sd, 50)
                break
    viol = res["violation"]
    note = []
    lines, rc = [], 0
    if viol:
        data = {"property": prop, "kind": viol["kind"], "case": viol["case"], "message": viol["message"], "seed": seed,
                "how": f"bin/check {prop} --replay <this file>"}
        if alarms:
            data["obligation"] = alarms[0]["obligation"]
            data["function"] = alarms[0]["function"]
        path = write_replay(prop, data)
        ok, msg = h.replay(path)
        for _ in range(4):          # identifiers and salts of the client are random
            if ok == 0 and prop != "C18":
                ok, msg = h.replay(path)
        if ok != 1:
            r3 = h.run(found[1], seed=found[0], tag=".again")
            w = r3["violation"]
            if w:
                data.update({k: w[k] for k in ("kind", "case", "message")})
                os.unlink(path)
                path = write_replay(prop, data)
                # the end of the process by a signal counts only when the case itself does it again
                ok = 1 if w["kind"] == viol["kind"] and "ended by signal" not in w["message"] else h.replay(path)[0]
                viol = w
        if ok == 1:
            kn = [f for f in known() if f["property"] == prop and f.get("kind") == viol["kind"] and f.get("match", "\0") in viol["message"]]
            if kn:
                lines.append(f"KNOWN-FINDING: property={prop} {kn[0]['what']}")
            else:
                lines.append("failing input: " + viol["message"][:600])
                if alarms:
                    lines.append("failed obligation: " + alarms[0]["function"])
                lines.append(f"VIOLATION property={prop} replay={path}")
                rc = 1
        else:
            os.unlink(path)
            note.append("a failing case was not confirmed on re-execution and is not reported: " + viol["message"][:300])
    if rc == 0:
        al = [a for a in alarms if a["small"]]
        if al:
            path = write_replay(prop, {"property": prop, "function": al[0]["function"], "obligation": al[0]["obligation"],
                                       "verifier_output": [a["obligation"] for a in al], "model": al[0].get("model"),
                                       "searched": {"cases": res["cases"], "extra": extra}})
            lines.append("failed obligation: " + al[0]["function"])
            lines.append(al[0]["obligation"][:1500])
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
            rc = 1
        elif alarms:
            note.append("the proof does not go through for rewritten code and the search found no failing input: " +
                        ", ".join(a["function"] for a in alarms))
    if v and v["status"] != "ok":
        note.append("verifier: " + v["why"])
    for k in ("verr", "perr"):
        if k in P:
            note.append(P[k][-1500:])
    if res.get("broken"):
        note.append(res["broken"][-1500:])

    # ---------------------------------------------------------------- evidence
    level = meta["level"]
    cov = {}
    if v:
        names = [o for o in v["obligations"]]
        cov.update({
            "functions_under_contract": len(proved) + len(failed) + len(undecided) + len(trusted),
            "proved": [prove.fnkey(k) for k in proved], "failed": [prove.fnkey(k) for k in failed],
            "undecided_this_run": [prove.fnkey(k) for k in undecided], "trusted": [prove.fnkey(k) for k in trusted],
            "whole_crate": {"verified": v["verified"], "errors": v["errors"], "queries": len(names),
                            "lemmas": sum(1 for o in names if o[1] == "proof"), "smt_ms": v["smt_ms"], "wall_s": round(v["wall"], 1),
                            "rounds": v["rounds"]},
            "extraction_rules_used": sorted(v["info"]["rules"]), "dropped_by_extraction": v["info"]["dropped"],
            "lost_anchors": v["info"]["lost"]})
    if py:
        cov["python_obligations"] = [{k: o[k] for k in ("function", "name", "status", "time") if k in o} for o in py["obligations"]]
        cov["python_solver_s"] = py.get("solver_s")
    npy = len((py or {}).get("obligations", []))
    nob = len(proved) + len(failed) + len(undecided) + len(lem) + npy
    ndis = len(proved) + len(lem_ok) + sum(1 for o in (py or {}).get("obligations", []) if o["status"] == "proved")
    cov["property_lemmas"] = {n: n in lem_ok for n in lemmas.roots(prop)} if v else {}
    cov["supporting_lemmas"] = len(lem) - len(cov["property_lemmas"])
    cov["not_discharged"] = [n for n in lem if n not in lem_ok]
    cov["axioms_named_by_these_proofs"] = axioms
    if v and v["status"] == "ok":
        cov["assumed_contracts"] = lemmas.assumed(v["text"])
    cov["concrete_search"] = {"label": "bounded stand-in and counterexample search, never counted as proved", "cases": res["cases"],
                              "by_kind": res["counts"], "distinct": res.get("distinct", 0), "rule": meta["rule"] + "; distinct = distinct cases", "seconds": res["seconds"], "skipped": res["skipped"], "extra": extra}
    if level == "proof":
        cov.update({"obligations": nob, "discharged": ndis,
                    "checker_cmd": " ; ".join(([v["cmd"]] if v and v.get("cmd") else []) + [f"python3-vt lib/pyvc.py {prop}"] * bool(npy)),
                    "trusted_base": meta["trusted"]})
    elif level == "exploration":
        cov.update({"evaluations": res["cases"], "distinct_nontrivial": res.get("distinct", 0), "rule": meta["rule"],
                    "samples": [s[:600] for s in res.get("samples", [])][:12] or ["none"],
                    "obligations": nob, "discharged": ndis})
    cov["notes"] = note
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": meta["trusted"] + ((py or {}).get("assumed") or []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": rc}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop} {tier}: {ndis}/{nob} obligations discharged, {res['cases']} concrete cases, {round(time.monotonic() - t0, 1)} s")
    for n in note:
        print("note:", n[:700])
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    shutil.rmtree(os.path.join(BUILD, "verus-" + prop), ignore_errors=True)
    return rc
