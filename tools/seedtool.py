"""Plant bugs: build seeded/<id>/ from definitions and try them (development tool, not a check).

  seedtool.py make DEFS.py            write seeded/<id>/{patch.diff,demo.py,demo.sh,meta.json}
  seedtool.py try [ID ...] [-j N]     in scratch copies: tests pass? demo 0 -> nonzero? property's check catches it?
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "201f378"
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 NO_COLOR=1
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout,
                          env={**os.environ, **(env or {})})


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(V, "seeded", b["id"])
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            sh(f"git -C {R} archive HEAD | tar x -C {tmp}")
            sh("git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", tmp)
            for f, old, new in b["subs"]:
                p = os.path.join(tmp, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print("!!", b["id"], f, "matches", s.count(old), repr(old[:60]))
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = sh("git diff", tmp).stdout
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
                open(d + "/demo.sh", "w").write(DEMO)
                os.chmod(d + "/demo.sh", 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(d + "/meta.json", "w"), indent=1)
                # do the removed lines (or, for pure insertions, the context) come from the original repository?
                for f in {f for f, _, _ in b["subs"]}:
                    mine = sh(f"git -C {R} blame -s {BASE}..HEAD -- {f}").stdout.splitlines()
                    fresh = [re.sub(r"^\S+\s+(?:\S+\s+)?\d+\) ?", "", l) for l in mine if not l.startswith("^")]
                    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                    if any(l in fresh and l.strip() for l in removed):
                        print("?? ", b["id"], "touches lines of fix commits:", [l for l in removed if l in fresh][:3])
                print("made", b["id"])
        finally:
            shutil.rmtree(tmp)


def attempt(i, skip_tests=False):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seedtry_")
    out = {"id": i, "property": meta["property"]}
    try:
        repo, ver, dem = tmp + "/repo", tmp + "/verif", tmp + "/demo"
        sh(f"cp -a {R} {repo}; mkdir {ver}; cp -a {V}/vf {V}/corpus {V}/run.sh {V}/setup.sh {V}/known_findings.json {ver}/; "
           f"cp -a {V}/.deps {ver}/; mkdir {ver}/evidence {ver}/replays; cp -a {d} {dem}")
        env = {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1"}
        out["demo_clean"] = sh(f"bash {dem}/demo.sh", repo, env).returncode
        a = sh(f"git apply {d}/patch.diff", repo)
        if a.returncode:
            out["apply"] = a.stderr
            return out
        r = sh(f"bash {dem}/demo.sh", repo, env)
        out["demo_bug"] = r.returncode
        out["demo_msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:] or [""]
        if not skip_tests:
            t = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p no:xdist --randomly-dont-reorganize "
                   "--randomly-seed=0 --timeout=120 -x", repo, env)
            out["tests"] = t.stdout.strip().splitlines()[-1:]
        c = sh(f"bash run.sh {meta['property']} quick", ver, {"VERIF_REPO": repo, "VERIF_SEED": "1"})
        out["check"] = c.returncode
        out["caught"] = c.returncode == 1 and f"VIOLATION property={meta['property']}" in c.stdout
        out["check_msg"] = [l for l in (c.stdout + c.stderr).splitlines() if l.strip()][:3]
    finally:
        shutil.rmtree(tmp)
    return out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        a = sys.argv[2:]
        j = 4
        if "-j" in a:
            k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
        skip = "--no-tests" in a
        a = [x for x in a if x != "--no-tests"] or sorted(os.listdir(V + "/seeded"))
        with concurrent.futures.ThreadPoolExecutor(j) as ex:
            for o in ex.map(lambda i: attempt(i, skip), a):
                ok = o.get("demo_clean") == 0 and o.get("demo_bug") not in (0, None) and ("tests" not in o or "failed" not in str(o["tests"]))
                print("OK " if ok else "BAD", "CAUGHT" if o.get("caught") else "MISSED", json.dumps(o), flush=True)
