#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]   |   check.py setup"""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

MODULES = {
    "P01": "c_deck", "P02": "c_deck", "P03": "c_deck", "P15": "c_deck", "P28": "c_fault",
    "P04": "c_expr", "P05": "c_expr",
    "P06": "c_run", "P07": "c_run", "P08": "c_run", "P09": "c_run", "P12": "c_run", "P13": "c_run",
    "P14": "c_elem", "P29": "c_elem", "P17": "c_run", "P18": "c_run",
    "P10": "c_mpi", "P11": "c_mpi", "P26": "c_mpi", "P27": "c_mpi",
    "P19": "c_linear", "P20": "c_linear", "P21": "c_linear", "P22": "c_quasi",
    "P16": "c_fields", "P23": "c_contact", "P24": "c_contact", "P25": "c_contact", "P30": "c_crun", "P31": "c_tensor", "P32": "c_views", "P33": "c_labels", "P34": "c_cli",
    "P35": "c_entity", "P36": "c_report", "P37": "c_mesh", "P38": "c_san", "P39": "c_uq",
}


def main():
    a = sys.argv[1:]
    if "--tier" in a:
        k = a.index("--tier")
        os.environ["VERIF_TIER"] = a[k + 1]
        del a[k:k + 2]
    import nsm
    if a[0] == "setup":
        nsm.run(["java", "-cp", nsm.TLAJAR, "tlc2.TLC", "-help"], check=False)
        print("setup ok")
        return 0
    pid = a[0]
    try:
        mod = importlib.import_module(MODULES[pid])
        chk = nsm.Check(pid)
        getattr(mod, "check_" + pid)(chk)
        rc = chk.finish()
    except nsm.ToolError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
