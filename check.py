#!/opt/boozenv/bin/python
"""check.py ID            run the check of a property (VERIF_TIER, VERIF_SEED)
check.py ID --case N   run one case again (replay)"""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
os.environ.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
os.environ["LC_ALL"] = "C.UTF-8"
import common

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        cid, tier, seed, part, nparts, scratch, only = a[1:8]
        sys.exit(common.worker_main(cid, tier, int(seed), int(part), int(nparts), scratch, None if only == "-" else int(only)))
    if not a:
        print(__doc__)
        sys.exit(2)
    only = int(a[a.index("--case") + 1]) if "--case" in a else None
    sys.exit(common.main(a[0], only=only))
