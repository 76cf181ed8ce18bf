import json, os, resource, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, props


def main():
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            rep = json.load(f)
        if not rep.get("harness"):
            print(json.dumps(rep, indent=1)[:4000])
            print("(decided by the Python oracle: re-run the whole check with this seed)")
            os.environ["VERIF_SEED"] = str(rep.get("seed", 1))
            return props.CHECKS[rep["property"]](driver.Runner(rep["property"], rep.get("tier", "quick"), int(os.environ["VERIF_SEED"])))
        r = driver.Runner(rep["property"], rep["tier"], rep["seed"])
        exe = r.build((rep["harness"], rep["variant"], props.LINK.get(rep["harness"], "")))
        case = max(rep["case"], 0)
        try:
            r.run(exe, 1, variant=rep["variant"], mode=rep["mode"], args=rep["args"], begin=case, shards=1, seed=rep["seed"])
        except driver.Hang:
            pass
        for f in r.fails:
            print(f["key"], f["detail"])
        print("reproduced" if r.fails else "not reproduced")
        return 1 if r.fails else 0
    if sys.argv[1] == "setup":
        props.setup()
        return 0
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    r = driver.Runner(pid, tier, seed)
    try:
        return props.CHECKS[pid](r)
    except driver.Hang:
        return r.finish("exploration", "stopped at a case which does not terminate")


try:
    rc = main()
except driver.HarnessError as e:
    print("HARNESS ERROR:", e, file=sys.stderr)
    rc = 2
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
