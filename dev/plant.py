"""Make (or re-make) seeded bugs under /verif/seeded from a list file.

    python3 dev/plant.py LIST [label] [--check] [--keep-missed]

LIST is a Python file defining B = [dict(id, prop, edits=[(file, old, new)], demo, needs,
breaks)].  For every entry a scratch copy of /repo is patched, the tests are run, the demo is
run on the unchanged and on the patched copy, and only if all of that is as it should be, the
folder /verif/seeded/<id> is written.  With --check, the property's check is run against the
patched copy as well.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, text=True, capture_output=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    ns = {}
    exec(open(args[0]).read(), ns)
    only = args[1] if len(args) > 1 else ""
    work = tempfile.mkdtemp(prefix="plant.")
    try:
        for b in ns["B"]:
            if only and only not in b["id"]:
                continue
            if os.path.exists(os.path.join(work, "r")):
                shutil.rmtree(os.path.join(work, "r"))
            sh(f"cp -a /repo {work}/r", work)
            r = os.path.join(work, "r")
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(r, "htmltools", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT matches", s.count(old), repr(old[:60]))
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            _, diff = sh("git diff", r)
            d = os.path.join(work, "d")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(b.get("sh") or (
                "#!/bin/bash\n# run with cwd at the repository\n"
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python '
                '"$(dirname "$0")/demo.py"\n'))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            rc0, o0 = sh(f"bash {d}/demo.sh", "/repo")
            rc1, o1 = sh(f"bash {d}/demo.sh", r)
            rct, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -8", r)
            failed = "failed" in ot or "error" in ot
            verdict = "ok"
            if rc0 != 0:
                verdict = "DEMO FAILS ON CLEAN: " + o0[-600:]
            elif rc1 == 0:
                verdict = "DEMO PASSES WITH BUG"
            elif failed:
                verdict = "TESTS FAIL " + ot[-300:]
            res = ""
            if check and verdict == "ok":
                rc, o = sh(f"python3 check.py {b['prop']}", HERE, {"VERIF_REPO": r})
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                res = f" check rc={rc} violations={len(v)}"
            print(f"{b['id']:34s} {b['prop']} {verdict}{res}", flush=True)
            if verdict == "ok":
                t = os.path.join(SEED, b["id"])
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(d, t)
    finally:
        shutil.rmtree(work)


main()
