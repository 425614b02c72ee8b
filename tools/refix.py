"""For every repaired defect: undo the repair in a scratch copy of /repo, run the property's quick check, which has to
report it again, and keep the shrunk input as a regression input in corpus/<ID>/<commit>.json (development tool)."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("REFIX_REPO", "/repo")


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=1500, env={**os.environ, **(env or {})})


def one(line):
    _, prop, commit, what = re.fullmatch(r"(fixed): property=(\S+) (\S+) (.*)", line).groups()
    tmp = tempfile.mkdtemp(prefix="refix_")
    try:
        sh(f"git clone -q {R} {tmp}/r")
        r = sh(f"git -c user.email=a@b -c user.name=a revert --no-commit {commit}", f"{tmp}/r")
        if r.returncode:
            return f"CONFLICT {prop} {commit} {what}"
        sh(f"cp -a {V} {tmp}/v && rm -rf {tmp}/v/corpus")
        r = sh(f"bash run.sh {prop} quick", f"{tmp}/v", {"VERIF_REPO": f"{tmp}/r", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
        if not m:
            return f"MISSED {prop} {commit} {what} (exit {r.returncode}) {r.stdout[-200:]} {r.stderr[-200:]}"
        rec = json.load(open(os.path.join(f"{tmp}/v", m.group(1))))
        os.makedirs(f"{V}/corpus/{prop}", exist_ok=True)
        json.dump({"property": prop, "sub": rec["sub"], "case": rec["case"], "defect": what}, open(f"{V}/corpus/{prop}/{commit}.json", "w"), indent=1)
        return f"caught {prop} {commit} {what} | {rec['sub']} {len(json.dumps(rec['case']))} bytes"
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    lines = json.load(open(f"{V}/known_findings.json"))["fixed"]
    want = sys.argv[1:]
    lines = [l for l in lines if not want or any(w in l for w in want)]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, lines):
            print(r, flush=True)
