#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide a property on /repo's working tree."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

CHECKS = {
    "C01": ("p_life", "run"),
    "C02": ("p_gram", "c02"),
    "C03": ("p_gram", "c03"),
    "C04": ("p_gram", "c04"),
    "C05": ("p_comp", "c05"),
    "C06": ("p_lex", "c06"),
    "C07": ("p_gram", "c07"),
    "C08": ("p_gram", "c08"),
    "C09": ("p_gram", "c09"),
    "C10": ("p_gram", "c10"),
    "C11": ("p_gram", "c11"),
    "C12": ("p_gram", "c12"),
    "C13": ("p_cont", "c13"),
    "C14": ("p_cont", "c14"),
    "C15": ("p_cont", "c15"),
    "C16": ("p_conf", "c16"),
    "C17": ("p_comp", "c17"),
    "C18": ("p_yaml", "c18"),
    "C19": ("p_edit", "c19"),
    "C20": ("p_rt", "c20"),
    "C21": ("p_oom", "c21"),
    "C22": ("p_file", "c22"),
    "C23": ("p_dump", "c23"),
    "C24": ("p_keep", "c24"),
    "C25": ("p_text", "c25"),
    "C26": ("p_gram", "c26"),
}


def setup():
    """nothing to install: check that the tools are there, and that the driver builds"""
    import ecv
    w = ecv.Work()
    try:
        ecv.build(w)
        ecv.model_check(w, "NodeRefAlgo", "NodeRefAlgoQ")
        print("setup: ok")
        return 0
    except ecv.CheckError as e:
        print("setup: %s" % e)
        return 1
    finally:
        w.close()


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py %s [quick|thorough]" % "|".join(sorted(CHECKS)))
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import chk
    ck = None
    try:
        ck = chk.Check(pid, tier)
        mod, fn = CHECKS[pid]
        try:
            getattr(importlib.import_module(mod), fn)(ck)
        except chk.Enough:
            pass
        except chk.CheckError as e:
            if not ck.viol:
                raise
            print("stopped: %s" % e)
        return ck.finish()
    except chk.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if ck is not None:
            ck.work.close()


if __name__ == "__main__":
    sys.exit(main())
