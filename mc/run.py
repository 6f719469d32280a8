"""python -m mc.run <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, shutil, sys, tempfile, time

for k, v in dict(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1").items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier"); ap.add_argument("--replay")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":          # own this source of nondeterminism
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.id.upper()
    t0 = time.time()
    os.umask(0o022)
    scratch = tempfile.mkdtemp(prefix=f"mc_{pid}_", dir="/tmp")
    replay_case = json.load(open(a.replay)) if a.replay else None
    sys.path.insert(0, HERE)
    src = os.path.realpath(os.environ.get("MC_SRC", "/repo/src"))     # another tree only while developing
    sys.path.insert(0, src)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.mkdir(os.environ["MPLCONFIGDIR"])
    os.chdir(scratch)
    try:
        import mud.base, mud                                     # noqa
        assert os.path.realpath(mud.__file__).startswith(src + "/"), mud.__file__
        from mc import core
        mod = importlib.import_module(f"mc.checks.{pid.lower()}")
        if a.replay:
            ctx = core.Ctx(replay_case.get("tier", tier))
            r = core.run_case(mod, replay_case["case"], ctx)
            print("replayed:", "no violation" if r is None else r[0])
            return 0 if r is None else 1
        budget = float(os.environ.get("MC_BUDGET", "600" if tier == "quick" else "5400"))
        res = core.explore(mod, pid, tier, scratch, t0 + budget)
        viol = res["viol"]
        cov = dict(states=len(res["states"]), transitions=res["transitions"],
                   traces_validated_against_impl=res["traces"], distinct_outcomes=len(res["outcomes"]),
                   cases_in_space=res["total"], exhaustive=bool(not res["capped"] and viol is None),
                   rule=" ".join(mod.RULE.split()), samples=[s for s in res["samples"]], **res["extra"])
        if res["capped"]:
            cov["capped"] = f"time budget hit: {res['done']} of {res['total']} cases run, in order"
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                      "values outside the enumerated alphabet and bound are not covered",
                      "numpy, scipy, scikit-learn and matplotlib are trusted; float results compared to ~1e-7"],
                  wall_s=round(time.time() - t0, 2), violations=0 if viol is None else 1)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
        for k, v in sorted(res["kf"].items()):
            print(f"KNOWN-FINDING: property={pid} {core.load_known()[(pid, k)]} ({v[0]} cases)")
        print(f"{pid} {tier}: cases={res['done']}/{res['total']} states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} outcomes={cov['distinct_outcomes']} "
              f"exhaustive={cov['exhaustive']} wall={ev['wall_s']}s")
        if viol is not None:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", f"{pid}.json")
            with open(rp, "w") as fp:
                json.dump(dict(property=pid, tier=tier, index=viol[0], case=viol[1], message=viol[2]), fp, indent=1, default=str)
            print(f"case {viol[0]}: {json.dumps(viol[1], default=str)[:600]}")
            print(f"  {viol[2][:1200]}")
            print(f"replay with: cd {HERE} && ./check {pid} --replay {rp}")
            print(f"VIOLATION property={pid} replay={rp}")
            return 1
        return 0
    finally:
        os.chdir("/tmp")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
