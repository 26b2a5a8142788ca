#!/usr/bin/env python3
"""Plants one bug: seed.py SPEC.py, where SPEC.py defines
id, property, needs, breaks, edits=[(path, old, new)], demo (bash text or python text).
Confirms in a scratch copy of /repo that it passes the tests and that the demo
tells it from the unchanged tree; writes /verif/seeded/<id>/ when all that holds."""
import json, os, shutil, subprocess, sys, tempfile

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

spec = {}
exec(open(sys.argv[1]).read(), spec)
specs = spec.get("SPECS") or [spec]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in specs:
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {copy} && git -C {copy} checkout -q -- .")
        ok = True
        for path, old, new, *which in s["edits"]:
            full = os.path.join(copy, path)
            text = open(full).read()
            if which and text.count(old) > which[0]:
                parts = text.split(old)
                text = old.join(parts[:which[0] + 1]) + "\0" + old.join(parts[which[0] + 1:])
                open(full, "w").write(text.replace("\0", new))
                continue
            if text.count(old) != 1:
                print(s["id"], "edit matches", text.count(old), "times in", path, repr(old[:60])); ok = False; break
            open(full, "w").write(text.replace(old, new))
        if not ok:
            continue
        demo = os.path.join(tmp, "demo")
        os.makedirs(demo)
        body = s["demo"]
        with open(os.path.join(demo, "demo.py"), "w") as f:
            f.write(body)
        with open(os.path.join(demo, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# Run with the repository as working directory.\n'
                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                    'exec timeout 120 /opt/venv/bin/python -X utf8 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        a = sh(f"bash {demo}/demo.sh", cwd="/repo")
        b = sh(f"bash {demo}/demo.sh", cwd=copy)
        patch = sh(f"git -C {copy} diff").stdout
        # The tests run on /repo with the patch applied.
        pf = os.path.join(tmp, "p.diff"); open(pf, "w").write(patch)
        assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout, "dirty /repo"
        out = os.path.join(tmp, "o.json")
        r = sh(f"git -C /repo apply {pf}"); assert r.returncode == 0, r.stderr
        try:
            t = sh(f"bash /opt/vp/test.sh {out}")
        finally:
            sh("git -C /repo checkout -- .")
        res = json.load(open(out)); base = json.load(open("/opt/vp/BASELINE.json"))
        failed = res.get("failed", [])
        nf = len(failed)
        print(s["id"], "demo unchanged:", a.returncode, "patched:", b.returncode, "failed tests:", nf, failed[:3])
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        if a.returncode == 0 and b.returncode != 0 and nf == 0:
            dest = os.path.join(root, "seeded", s["id"])
            shutil.rmtree(dest, ignore_errors=True); os.makedirs(dest)
            open(os.path.join(dest, "patch.diff"), "w").write(patch)
            for n in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(demo, n), dest)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(dest, "meta.json"), "w"), indent=2)
            print("   kept;", b.stderr.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
