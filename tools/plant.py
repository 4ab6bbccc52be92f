"""Plants a bug: python3 tools/plant.py SPEC.py...

SPEC.py defines id, property, needs, breaks, edits [(file, old, new)], demo (python text; uses util.py).
Makes /verif/seeded/<id>/ after confirming, in a scratch copy, that the tests pass with the change and the demo
passes without it and fails with it; then runs the property's check against the scratch copy.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def tests(d):
    env = dict(os.environ, PYTHONPATH=f"{d}/src:{d}/connectrpc-otel:{d}/protoc-gen-connectrpc")
    out = []
    for sub in (d, d + "/connectrpc-otel"):
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "-x"], cwd=sub, env=env, capture_output=True, text=True)
        out.append((r.returncode, r.stdout[-1500:]))
    return out


def demo(folder, d):
    return sh(f"bash {folder}/demo.sh", d, timeout=300)


def main(path):
    s = {}
    exec(compile(open(path).read(), path, "exec"), s)
    work = f"/tmp/plantwork.{os.getpid()}"
    if os.path.exists(work):
        shutil.rmtree(work)
    shutil.copytree(os.environ.get("PLANT_REPO", "/repo"), work, symlinks=True)
    folder = f"{work}.demo"
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    try:
        shutil.copy(os.path.join(ROOT, "tools", "demo_util.py"), folder + "/util.py")
        with open(folder + "/demo.py", "w") as f:
            f.write(s["demo"].lstrip("\n"))
        with open(folder + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\n# Exit 0 when the property holds. Run in the repository after the build.\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r = demo(folder, work)
        if r.returncode:
            print("FAIL: demo fails on the unchanged tree\n", r.stdout[-1500:], r.stderr[-3000:])
            return 1
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(f"FAIL: {f}: {t.count(old)} matches for {old!r}")
                return 1
            open(p, "w").write(t.replace(old, new))
        r = demo(folder, work)
        if r.returncode == 0:
            print("FAIL: demo passes with the change", r.stdout[-800:])
            return 1
        print("demo with the change:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        for code, out in tests(work):
            if code:
                print("FAIL: tests\n", out)
                return 1
        diff = sh("git diff", work).stdout
        dst = f"{ROOT}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(folder, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        if "--nocheck" not in sys.argv:
            r = sh(f"python3 check.py {s['property']} --tier quick --repo {work}", ROOT)
            print(f"== {s['id']} check exit {r.returncode}:", "\n".join(l for l in r.stdout.splitlines() if "VIOLATION" in l or "rule" in l)[:600] or r.stdout[-600:] + r.stderr[-600:])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(folder, ignore_errors=True)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        if not p.startswith("--"):
            print("#", p)
            main(p)
