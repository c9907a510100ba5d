"""Run the obligations of all drivers matching a pattern, 8 at a time."""
import multiprocessing as mp
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def one(i):
    from engine import prove
    from engine.lang import DRIVERS
    d = DRIVERS[i]
    r = prove.prove(d, LIMIT)
    return (r.status, d.prop, d.name, r.discharged, r.obligations, r.queries, r.solver_time, r.wall, r.reason)


LIMIT = float(sys.argv[2]) if len(sys.argv) > 2 else 60
if __name__ == "__main__":
    from engine import sdk
    sdk.setup()
    import contracts.all  # noqa
    from engine.lang import DRIVERS
    idx = [i for i, d in enumerate(DRIVERS) if re.search(sys.argv[1], "%s/%s" % (d.prop, d.name))]
    bad = 0
    with mp.Pool(8, maxtasksperchild=1) as p:
        for r in p.imap(one, idx, 1):
            if r[0] != "proved" or "-v" in sys.argv:
                print("%-12s %s/%-40s %d/%d q=%d solver=%.1f wall=%.1f %s" % (r[:8] + (r[8][:190],)), flush=True)
            bad += r[0] != "proved"
    print("%d drivers, %d not proved" % (len(idx), bad))
