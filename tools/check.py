#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib.util, json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt


def load(prop):
    path = os.path.join(vt.VERIF, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location(prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--part", default=None)
    ap.add_argument("--replay", default=None)
    o = ap.parse_args()
    tier = o.tier or os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = load(o.prop)
    rep = json.load(open(o.replay)) if o.replay else None
    ctx = vt.Ctx(o.prop, tier, seed)
    parts = [p for p in mod.PARTS if o.part in (None, p.name)]
    if rep:
        p = [p for p in mod.PARTS if p.name == rep["part"]][0]
        p.dir = os.path.join(ctx.dir, p.name)
        try:
            p.build(ctx)
        except vt.Violation as v:
            print("reproduced: " + v.what)
            return 1
        bad = p.replay_file(ctx, rep) if hasattr(p, "replay_file") else p.judge(ctx, [[(x[0], x[1]) for x in sc] for sc in rep["scenarios"]], env=rep.get("env", 0))
        print("reproduced: " + bad[0] if bad else "not reproduced")
        return 1 if bad else 0
    viols, errors = [], []

    def one(p):
        try:
            p.run(ctx)
        except vt.Violation as v:
            viols.append(v)
        except vt.CheckError as e:
            errors.append(f"{p.name}: {e}")
        except Exception:
            errors.append(f"{p.name}: {traceback.format_exc()}")
    with ThreadPoolExecutor(max(1, getattr(mod, "PARALLEL", 6))) as ex:
        list(ex.map(one, parts))
    vt.write_evidence(ctx, getattr(mod, "LEVEL", "model_checking"), t0, len(viols), getattr(mod, "ASSUMPTIONS", []))
    for v in viols:
        print(v.what)
        print(f"VIOLATION property={o.prop} replay={v.replay}", flush=True)
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    if viols:
        return 1
    if errors:
        return 2
    print(f"OK {o.prop} {tier}: " + ", ".join(f"{k}={v}" for k, v in ctx.cov.items()) + f" in {time.time() - t0:.1f}s")
    return 0


sys.exit(main())
