"""Helper for planted bugs: mk(...) writes seeded/<id>, verify(id) confirms it.

usage: python3 tools/mkseed.py verify ID [--notests] ; other scripts import mk.
"""
import json, os, re, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = """#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$W"' EXIT
. /opt/vp/env.sh
export PYTHONPATH=/repo TMPDIR=$W PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 REPO_DIR=$PWD
cd "$W"
%s
"""
SERIAL = 'timeout 120 $PY "$D/demo.py"'
MPI = ('timeout 120 mpirun --allow-run-as-root --oversubscribe --bind-to none '
       '--mca btl self,vader --mca plm isolated '
       '--mca mpi_yield_when_idle 1 --mca orte_tmpdir_base "$W" -np %d $PY "$D/demo.py" < /dev/null')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def mk(id, prop, edits, needs, breaks, demo, np=1):
    """edits: list of (file, old, new)."""
    assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            s = open(f"{R}/{f}").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        diff = sh("git", "-C", R, "diff").stdout
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    open(d + "/demo.sh", "w").write(SH % (SERIAL if np == 1 else MPI % np))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)


def verify(id, tests=True, check=True):
    d = f"{V}/seeded/{id}"
    m = json.load(open(d + "/meta.json"))
    assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "repo dirty"
    ext = bool(re.search(r"^\+\+\+ .*\.(pyx|hpp|c|pxd|cpp|h)$", open(d + "/patch.diff").read(), re.M))
    res = {}
    p = sh("bash", d + "/demo.sh", cwd=R)
    res["clean"] = p.returncode
    if p.returncode:
        print(p.stdout[-1500:], p.stderr[-1500:])
    a = sh("git", "-C", R, "apply", d + "/patch.diff")
    assert a.returncode == 0, a.stderr
    try:
        if ext:
            b = sh("bash", "/opt/vp/build.sh")
            res["build"] = b.returncode
        p = sh("bash", d + "/demo.sh", cwd=R)
        res["patched"] = p.returncode
        res["msg"] = (p.stdout + p.stderr)[-200:]
        if tests:
            t = sh("bash", V + "/tools/stable.sh")
            res["tests"] = t.stdout.strip()[-300:]
        if check:
            c = sh("./run", m["property"], "quick", cwd=V)
            res["check"] = c.returncode
            res["out"] = [l[:300] for l in c.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l]
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
        if ext:
            sh("bash", "/opt/vp/build.sh")
    ok = res["clean"] == 0 and res["patched"] != 0 and (not tests or res["tests"].endswith("missing []"))
    print(id, m["property"], "OK" if ok else "BAD", "caught" if res.get("check") == 1 else f"MISSED({res.get('check')})", json.dumps(res))
    rp = V + "/tools/seed_results.json"
    r = json.load(open(rp)) if os.path.exists(rp) else {}
    r[id] = "yes" if res.get("check") == 1 else "no" if check else r.get(id, "?")
    json.dump(r, open(rp, "w"), indent=1, sort_keys=True)
    return ok


if __name__ == "__main__" and sys.argv[1:2] == ["verify"]:
    for i in sys.argv[2:]:
        if not i.startswith("--"):
            verify(i, "--notests" not in sys.argv, "--nocheck" not in sys.argv)
