"""python -m vf.run CNN | python -m vf.run --replay FILE"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower())


def main():
    shutil.rmtree("/repo/pocomc/__pycache__", ignore_errors=True)
    from vf import core
    try:
        import torch
        torch.set_num_threads(1)
        if sys.argv[1] == "--replay":
            rep = json.load(open(sys.argv[2]))
            mod = load(rep["property"])
            core.check_repo()
            sub = [s for s in mod.SUBS if s.name == rep["check"]][0]
            scratch = tempfile.mkdtemp(prefix="vf_replay_")
            cwd = os.getcwd()
            os.chdir(scratch)
            try:
                core.run_case(sub, rep["case"], core.Ctx(scratch, "quick"))
            except core.Violation as v:
                print("reproduced:", v)
                print(f"VIOLATION property={rep['property']} replay={sys.argv[2]}")
                return 1
            finally:
                os.chdir(cwd)
                shutil.rmtree(scratch, ignore_errors=True)
            print("not reproduced: the property holds on this case")
            return 0
        mod = load(sys.argv[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2:
            tier = sys.argv[2]
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return core.main(mod, tier, seed)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
