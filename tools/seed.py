"""python3 tools/seed.py new NAME PROP FILE   (reads old/new from stdin separated by =====)
   python3 tools/seed.py verify NAME [--tests]  demo on clean and patched copies (+ stable tests)
   python3 tools/seed.py check NAME [PROP]      run the check against the patched copy"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt-%d" % os.getpid()


def copy():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = WT + "/core"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def main():
    cmd, name = sys.argv[1:3]
    d = os.path.join(V, "seeded", name)
    try:
        if cmd == "new":
            prop, file = sys.argv[3:5]
            copy()
            txt = sys.stdin.read()
            for blk in txt.split("#####\n"):
                f = file
                if blk.startswith("FILE "):
                    f, blk = blk[5:].split("\n", 1)
                old, new = blk.split("=====\n")
                p = os.path.join(WT, f)
                s = open(p).read()
                old, new = old.rstrip("\n"), new.rstrip("\n")
                assert s.count(old) == 1, "%d matches of %r" % (s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            os.makedirs(d, exist_ok=True)
            diff = sh(["git", "-C", WT, "diff"]).stdout
            assert diff
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            print(diff)
        elif cmd == "verify":
            copy()
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=WT, env=env())
            print("clean demo rc", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
            subprocess.run(["git", "-C", WT, "apply", os.path.join(d, "patch.diff")], check=True)
            r2 = sh(["bash", os.path.join(d, "demo.sh")], cwd=WT, env=env())
            print("patched demo rc", r2.returncode, (r2.stdout + r2.stderr)[-300:])
            ok = r.returncode == 0 and r2.returncode != 0
            if "--tests" in sys.argv:
                t = sh(["/opt/venv/bin/python", "../scripts/test_runner.py"], cwd=WT + "/core", env=dict(
                    env(), PYTHONHASHSEED="0", PYCCOLO_DEV_MODE="1", SHOULD_SKIP_KNOWN_FAILING="1", MPLBACKEND="agg",
                    IPYTHONDIR=WT + "/.ipy", MYPY_CACHE_DIR=WT + "/.mypy", PATH="/opt/venv/bin:" + os.environ["PATH"],
                    PYTEST_ADDOPTS="-q -p no:cacheprovider --timeout=120 --hypothesis-profile=ci --hypothesis-seed=0"))
                print("tests:", [x for x in t.stdout.splitlines() if 'passed' in x or 'FAILED' in x][-4:], t.returncode)
                ok = ok and t.returncode == 0
            print("OK" if ok else "BAD")
            sys.exit(0 if ok else 1)
        elif cmd == "check":
            copy()
            subprocess.run(["git", "-C", WT, "apply", os.path.join(d, "patch.diff")], check=True)
            prop = sys.argv[3] if len(sys.argv) > 3 else json.load(open(os.path.join(d, "meta.json")))["property"]
            e = dict(os.environ, VERIF_REPO_CORE=WT + "/core", VERIF_SEED="1", VERIF_EVIDENCE=WT + "/ev")
            r = sh(["python3-vt", os.path.join(V, "check.py"), prop], cwd=V, env=e)
            print(name, prop, "rc", r.returncode)
            print("\n".join(x[:200] for x in r.stdout.splitlines()[-6:]))
            if r.returncode not in (0, 1):
                print(r.stderr[-500:])
    finally:
        shutil.rmtree(WT, ignore_errors=True)


main()
