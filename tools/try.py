"""Development runner: try.py 'mod:fn' 'python list of argument tuples' [--repo R] [--wall N] [-v] [-d]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.run import Task, run_tasks  # noqa: E402
from specs import *  # noqa: E402,F403

ALL = [(k, "unary" if (k, p) == ("unary", "connect") else p) for k in KINDS for p in PROTOS]  # noqa: F405
ap = argparse.ArgumentParser()
ap.add_argument("fn")
ap.add_argument("args", nargs="?", default="[()]")
ap.add_argument("--repo", default="/repo")
ap.add_argument("--wall", type=float, default=100)
ap.add_argument("-v", action="store_true")
ap.add_argument("-d", action="store_true")
a = ap.parse_args()
mod, fn = a.fn.split(":")
tasks = [Task(mod, fn, *t, wall=a.wall) for t in eval(a.args)]


def show(r):
    print(f"# {r['name']}: {r['wall']}s states={r['states']} merged={r['merged']} inc={r['incomplete']} limits={r['limits']}" + (f" ends={r['ends']} cov={r['covered']}" if a.d else ""), flush=True)
    if r["error"]:
        print(r.get("tb"))
    for rule, where, msg, tr in r["violations"]:
        print("   VIOL", rule, where, msg)
        if a.v:
            print("      " + "\n      ".join(x[:300] for x in tr[-60:]))


run_tasks(a.repo, tasks, 8, 1.0, show) if len(tasks) > 1 else [show(x) for x in run_tasks(a.repo, tasks, 1, 1.0)]
