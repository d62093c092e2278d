import ast, importlib, json, os, sys
from . import core


def main(argv):
    pid = argv[0]
    if pid == "--selftest":
        core.import_repo()
        for name in sorted(set(REG.values())):
            importlib.import_module("mc." + name)
        print("ok: %d checks" % len(REG))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    flt = None
    while i < len(argv):
        if argv[i] == "--thorough":
            tier = "thorough"
        elif argv[i] == "--quick":
            tier = "quick"
        elif argv[i] == "--replay":
            i += 1
            replay = argv[i]
        elif argv[i] == "--only":
            i += 1
            flt = argv[i]
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    core.import_repo()
    mod = importlib.import_module("mc." + REG[pid])
    ctx = core.Ctx(pid, tier, seed)
    ctx.filter = flt
    if replay:
        os.environ["MC_INPROC"] = "1"
        data = json.load(open(replay))
        ctx.filter = data["exploration"]
        ctx.replaying = os.path.relpath(os.path.abspath(replay), core.VERIF)
        want = data["case"]
        real = core._run_case

        def only(rec, fn, case, timeout, explain=repr):
            if repr(case) == want:
                real(rec, fn, case, timeout, explain)
                for v in rec.viol.values():
                    print("replayed:", v["key"], "\n", v["message"])
        core._run_case = only
    getattr(mod, pid)(ctx)
    return ctx.finish()


from .registry import REG  # noqa

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
