"""Development helper (no check uses it): build, confirm and try planted bugs.

  seedtool.py mk DEFS.py          candidates from a file of mk(...) calls -> /tmp/cand/<id>
  seedtool.py confirm ID...       in a scratch copy: tests pass, demo passes without / fails with the change
  seedtool.py catch ID... [--thorough]   run the property's check against the change
"""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAND = "/tmp/cand"
WT = "/tmp/seedwt%s" % os.environ.get("SEEDWT", "")
DEMO = '#!/bin/bash\nexport PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    os.makedirs(WT)
    sh("git -C /repo archive HEAD | tar x -C %s" % WT)
    sh("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % WT)


def mk(id, prop, edits, needs, breaks, demo):
    fresh()
    for f, old, new in edits:
        p = os.path.join(WT, "src/v8serialize", f)
        s = open(p).read()
        if s.count(old) != 1:
            print("NOT MADE", id, f, s.count(old), old)
            return
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(CAND, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh("cd %s && git diff" % WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def where(id):
    for b in (CAND, VERIF + "/seeded"):
        if os.path.isdir(os.path.join(b, id)):
            return os.path.join(b, id)
    raise SystemExit("no " + id)


def apply(id):
    fresh()
    r = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (where(id), where(id)), cwd=WT)
    return r.returncode == 0


def original(d):
    """Lines removed by the patch that are not lines of the original repository."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[-1] if not BASE else BASE
    out, f = [], None
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = sh("git -C /repo show %s:%s" % (base, l[6:].strip())).stdout.splitlines()
        elif l.startswith("-") and l[1:].strip() and l[1:-1] not in f:
            out.append(l[1:-1])
    return out


BASE = "bef1c0f"


def confirm(id):
    d = where(id)
    fresh()
    demo = "mkdir -p /tmp/demo_x && cp %s/demo.* /tmp/demo_x/ && bash /tmp/demo_x/demo.sh" % d
    r = sh(demo, cwd=WT)
    if r.returncode != 0:
        return "BAD: demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:]
    if not apply(id):
        return "BAD: does not apply"
    r = sh(demo, cwd=WT)
    if r.returncode == 0:
        return "BAD: demo passes with the change"
    env = dict(os.environ, PYTHONPATH="/opt/vp/plugins:%s/src" % WT, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               HYPOTHESIS_STORAGE_DIRECTORY="/tmp/hyp")
    env.pop("V8SERIALIZE_ECHOSERVERS", None)
    r = sh("/opt/venv/bin/python -c 'import v8serialize; print(v8serialize.__file__)'", cwd=WT, env=env)
    assert WT in r.stdout, r
    r = sh("timeout 300 /opt/venv/bin/python -m pytest -q -p vp_hypothesis -n 5 --insta update-none -o cache_dir=/tmp/pc --timeout=300 "
           "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/sj/junit.xml; "
           "/usr/bin/python3 /opt/vp/results.py /tmp/sj/out.json junit:/tmp/sj/junit.xml", cwd=WT, env=env)
    res = json.load(open("/tmp/sj/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
    bad = stable - set(res["passed"])
    if bad:
        return "BAD: %d stable tests fail: %s" % (len(bad), sorted(bad)[:4])
    if original(d):
        return "BAD: not original lines: %r" % original(d)
    if d.startswith(CAND):
        shutil.rmtree(VERIF + "/seeded/" + id, ignore_errors=True)
        shutil.copytree(d, VERIF + "/seeded/" + id)
        shutil.rmtree(d)
    return "CONFIRMED"


def catch(id, extra):
    d = where(id)
    prop = json.load(open(d + "/meta.json"))["property"]
    if not apply(id):
        return "does not apply"
    env = dict(os.environ, VP_SRC=WT + "/src")
    import time
    t = time.time()
    r = sh("python3-vt %s/run.py %s %s" % (VERIF, prop, extra), env=env)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    first = [l for l in (r.stdout + r.stderr).splitlines() if "violat" in l.lower() or "counterexample" in l.lower()][:3]
    return "%s rc=%d %.0fs %s" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, (first or r.stdout.splitlines()[-3:]))


def main():
    cmd, args = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    os.makedirs("/tmp/sj", exist_ok=True)
    if cmd == "mk":
        ns = {"mk": mk}
        exec(open(args[0]).read(), ns)
        print(sorted(os.listdir(CAND)))
    elif cmd == "confirm":
        for i in args or sorted(os.listdir(CAND)):
            print(i, confirm(i), flush=True)
    elif cmd == "catch":
        for i in args or sorted(os.listdir(VERIF + "/seeded")):
            print(i, catch(i, "--thorough" if "--thorough" in sys.argv else ""), flush=True)
    shutil.rmtree(WT, ignore_errors=True)


main()
