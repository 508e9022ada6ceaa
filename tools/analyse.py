"""Development aid: run every task of a contract module (both passes), exit 1 if anything is refuted."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import importlib
from zsa import driver, lin
sys.setrecursionlimit(20000)
bad, und, err = {}, 0, []
for mn in sys.argv[1].split(","):
    m = importlib.import_module("zsa.contracts_" + mn)
    for t in m.tasks():
        if os.environ.get("ZSA_TASKS") and not __import__("re").search(os.environ["ZSA_TASKS"], t[0].__name__ + str(t[1:])):
            continue
        r = driver.run_task(driver.Task(mn, t), getattr(m, "CONFIG", "debug"), "quick", 100)
        if "missing" in r:
            err.append(r["missing"])
        err += r["notes"]
        for o in r["obs"]:
            if o[4] == "violated":
                bad.setdefault((o[0], o[1], o[3]), o)
            und += o[4] == "undecided"
for e in err[:6]:
    print("note:", e)
print("undecided", und)
for (p, fn, what), o in list(bad.items())[:5]:
    print(p, fn, o[2], what, "::", o[5][:160])
sys.exit(1 if bad else 0)
