#!/usr/bin/env python3
"""Development aid: turns a list of planted-bug specs into seeded/<id>/ folders,
keeping only those that build, pass the stable tests, change original lines and
whose demonstration tells the changed tree from the unchanged one."""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = "8b97a5f"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests_pass(tree):
    out = tempfile.mktemp(suffix=".xml", dir=tree)
    env = dict(ENV, PYTHONPATH="%s:/opt/vp/plugins" % tree, OPENBLAS_NUM_THREADS="1")
    run([PY, "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--tb=line",
         "--timeout=120", "-o", "junit_family=xunit2", "--junitxml=" + out], cwd=tree, env=env)
    res = run(["python3", "/opt/vp/results.py", out + ".json", "junit:" + out])
    passed = set(json.load(open(out + ".json"))["passed"])
    return sorted(STABLE - passed)


def original(tree, diff):
    """Lines removed or changed by the diff must come from the original commit."""
    ok = False
    for f in set(re.findall(r"^--- a/(.*)$", diff, re.M)):
        blame = run(["git", "-C", "/repo", "blame", "-s", f]).stdout.split("\n")
        fd = diff.split("--- a/" + f)[1].split("diff --git")[0]
        old = None
        for line in fd.split("\n"):
            m = re.match(r"@@ -(\d+)", line)
            if m:
                old = int(m.group(1))
                continue
            if old is None:
                continue
            if line.startswith("-"):
                b = blame[old - 1].lstrip("^")
                if b.startswith(BASE):
                    ok = True
                else:
                    if len(line.strip("-+ ():")) > 0:
                        return False
                old += 1
            elif not line.startswith("+"):
                old += 1
    return ok


def make(spec, dest):
    tree = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        run(["cp", "-a", "/repo/.", tree])
        for f, old, new in spec["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            n = spec.get("nth", {}).get(old)
            if s.count(old) != 1 and n is None:
                return "edit matches %d times: %r" % (s.count(old), old)
            if n is None:
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(s)
        diff = run(["git", "-C", tree, "diff"]).stdout
        if not original(tree, diff):
            return "no original line changed"
        d = os.path.join(dest, spec["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(
            "import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + spec["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        why = None
        a = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=ENV)
        b = run(["bash", os.path.join(d, "demo.sh")], cwd=tree, env=ENV)
        if a.returncode != 0:
            why = "demo fails on the unchanged tree: " + a.stderr[-600:]
        elif b.returncode == 0:
            why = "demo passes with the change"
        else:
            c = run([PY, "-B", "-c", "import svgio, svgio.nodes"], cwd=tree, env=ENV)
            if c.returncode:
                why = "does not import"
            else:
                miss = tests_pass(tree)
                if miss:
                    why = "stable tests fail: %s" % miss[:4]
        if why:
            shutil.rmtree(d)
            return why
        return None
    finally:
        shutil.rmtree(tree)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor
    specs = [s for s in ns["SEEDS"] if not only or s["id"] in only]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(specs, ex.map(lambda s: make(s, "/verif/seeded"), specs)):
            print("%-28s %s" % (s["id"], r or "kept"))


main()
