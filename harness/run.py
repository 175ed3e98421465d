"""run.py PROP --tier T --seed N --budget S --out FILE [--cur FILE] [--replay FILE]"""
import argparse, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out")
    ap.add_argument("--cur")
    ap.add_argument("--replay")
    a = ap.parse_args()
    import core
    mod = importlib.import_module("props." + a.prop.lower())
    if a.replay:
        d = json.load(open(a.replay))
        try:
            mod.run(d["kind"], core.dec(d["case"]))
        except core.Fail as e:
            print("FAILS:", e)
            return 1
        except core.Skip as e:
            print("cannot be replayed here:", e)
            return 2
        print("holds on this case")
        return 0
    ctx = core.Ctx(a.prop, a.tier, a.seed, a.budget, a.cur)
    res = {"violation": None, "skipped": {}}
    odd = {}
    for kind, case in mod.gen(ctx):
        if kind in res["skipped"]:
            if ctx.left() <= 0:
                break
            continue
        ctx.note(kind, case)
        try:
            mod.run(kind, case)
        except core.Skip as e:
            res["skipped"][kind] = str(e)
        except core.Fail as e:
            res["violation"] = {"kind": kind, "case": core.enc(case), "message": str(e)}
            break
        except (AttributeError, TypeError, ImportError, NameError):
            # an entry point has another shape: no verdict from this kind of case
            odd[kind] = odd.get(kind, 0) + 1
            if odd[kind] == 30:
                res["skipped"][kind] = traceback.format_exc()[-3000:]
        except Exception as e:
            res["violation"] = {"kind": kind, "case": core.enc(case), "message": f"unexpected {type(e).__name__}: {e}",
                                "trace": traceback.format_exc()[-3000:]}
            break
        except BaseException as e:
            if not core.is_panic(e) or isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            res["violation"] = {"kind": kind, "case": core.enc(case), "message": f"{type(e).__name__}: {e}"}
            break
        if ctx.left() <= 0:
            break
    res["counts"] = ctx.counts
    res["odd"] = odd
    res["cases"] = ctx.n
    res["distinct"] = len(ctx.distinct)
    res["samples"] = list(ctx.samples.values())
    res["seconds"] = round(time.monotonic() - ctx.t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print((res["violation"] or {}).get("message"))
        print(json.dumps(res)[:3000])
    return 1 if res["violation"] else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
