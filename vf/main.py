"""Entry point: decides one property, writes evidence, prints VIOLATION lines.

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  error of the check itself
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {"quick": 240, "thorough": 3000}  # safety net per worker, never a verdict


def load(prop):
    return importlib.import_module(f"vf.props.{prop.lower()}")


def sub_by_name(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise SystemExit(f"no sub-check {name}")


def worker(prop, tier, seed, shard, nshards, out):
    from vf import core

    mod = load(prop)
    stats = core.Stats()
    deadline = time.time() + BUDGET[tier]
    failure = None
    # plain regression inputs first (no Hypothesis involved)
    cdir = os.path.join(ROOT, "corpus", prop)
    if os.path.isdir(cdir):
        for i, f in enumerate(sorted(os.listdir(cdir))):
            if i % nshards != shard or not f.endswith(".json"):
                continue
            rec = json.load(open(os.path.join(cdir, f)))
            sub = sub_by_name(mod, rec["sub"])
            o = core.run_case(sub, rec["case"])
            if o.status in ("violation", "harness"):
                failure = (sub, rec["case"], o)
                break
            stats.add(sub, rec["case"], o)
    times = {}
    if failure is None:
        for sub in mod.SUBS:
            t0 = time.time()
            r = core.run_sub(sub, tier, seed, shard, nshards, stats, deadline)
            times[sub.name] = round(time.time() - t0, 1)
            if r is not None:
                failure = (sub, r[0], r[1])
                break
    res = {
        "evaluations": stats.evaluations, "discarded": stats.discarded,
        "nontrivial": sorted(stats.nontrivial), "labels": stats.labels,
        "samples": stats.samples, "truncated": stats.truncated, "per_sub": stats.per_sub,
        "times": times, "failure": None,
    }
    if failure is not None:
        sub, case, o = failure
        res["failure"] = {"sub": sub.name, "case": case, "status": o.status,
                          "message": o.message, "traceback": o.tb}
    json.dump(res, open(out + ".tmp", "w"))
    os.rename(out + ".tmp", out)


def replay(path):
    from vf import core

    rec = json.load(open(path))
    if "worker" in rec:
        w = rec["worker"]
        with tempfile.TemporaryDirectory(prefix="vf_replay_") as d:
            out = os.path.join(d, "r.json")
            worker(rec["property"], w["tier"], w["seed"], w["shard"], w["nshards"], out)
            f = json.load(open(out))["failure"]
        print(json.dumps(f, indent=1))
        return 1 if f and f["status"] == "violation" and f["sub"] == rec["sub"] else 0
    mod = load(rec["property"])
    o = core.run_case(sub_by_name(mod, rec["sub"]), rec["case"])
    print(o.status, o.message)
    if o.tb:
        print(o.tb)
    return {"ok": 0, "discard": 0, "violation": 1}.get(o.status, 2)


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"]
            if k["property"] == prop and k["status"] == "open"]


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a[0] == "--worker":
        worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
        return
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mod = load(prop)
    nshards = min(getattr(mod, "SHARDS", 8), os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix=f"vf_{prop}_")
    procs = []
    try:
        for s in range(nshards):
            out = os.path.join(scratch, f"{s}.json")
            log = open(os.path.join(scratch, f"{s}.log"), "w")
            procs.append((subprocess.Popen(
                [sys.executable, "-m", "vf.main", "--worker", prop, tier, str(seed), str(s),
                 str(nshards), out], stdout=log, stderr=subprocess.STDOUT, cwd=ROOT), out, log.name))
        results = [None] * nshards
        pending = set(range(nshards))
        failed_at = None
        while pending:
            for i in list(pending):
                p, out, log = procs[i]
                if p.poll() is not None:
                    pending.discard(i)
                    if os.path.exists(out):
                        results[i] = json.load(open(out))
                        f = results[i]["failure"]
                        if f:
                            f["shard"] = i
                        if f and f["status"] == "violation" and failed_at is None:
                            failed_at = time.time()
                    else:
                        tail = open(log).read()[-3000:]
                        results[i] = {"crash": f"worker {i} exited {p.returncode}: {tail}"}
            if failed_at and time.time() - failed_at > 3 and pending:
                for i in pending:
                    procs[i][0].kill()
                    procs[i][0].wait()
                pending = set()
            time.sleep(0.05)
        results = [r for r in results if r is not None]

        crashes = [r["crash"] for r in results if "crash" in r]
        results = [r for r in results if "crash" not in r]
        fails = [r["failure"] for r in results if r["failure"]]
        viol = sorted((f for f in fails if f["status"] == "violation"),
                      key=lambda f: (f["sub"], len(json.dumps(f["case"]))))
        harness = [f for f in fails if f["status"] != "violation"]

        # confirm the minimal case in a fresh process
        confirmed = None
        for f in viol[:4]:
            rdir = os.path.join(ROOT, "replays", prop)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{f['sub']}.json")
            json.dump({"property": prop, "sub": f["sub"], "case": f["case"],
                       "message": f["message"], "traceback": f["traceback"]}, open(path, "w"), indent=1)
            for _ in range(3):
                r = subprocess.run([sys.executable, "-m", "vf.main", "--replay", path], cwd=ROOT,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 1:
                    confirmed = (f, path)
                    break
            if confirmed:
                break
        if confirmed is None:
            # state carried from case to case inside one process: the replay unit is the worker's run
            for f in viol[:2]:
                if "did not terminate" in f["message"]:
                    continue
                path = os.path.join(ROOT, "replays", prop, f"{f['sub']}.worker.json")
                json.dump({"property": prop, "sub": f["sub"], "message": f["message"],
                           "worker": {"tier": tier, "seed": seed, "shard": f["shard"], "nshards": nshards}},
                          open(path, "w"), indent=1)
                if all(subprocess.run([sys.executable, "-m", "vf.main", "--replay", path], cwd=ROOT,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 1
                       for _ in range(2)):
                    confirmed = (f, path)
                    break

        kf_lines = []
        for k in known_findings(prop):
            path = os.path.join(ROOT, k["replay"])
            r = subprocess.run([sys.executable, "-m", "vf.main", "--replay", path], cwd=ROOT,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1:
                if k["expect"] in r.stdout.decode(errors="replace"):
                    kf_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
                elif confirmed is None:
                    # the listed input fails in another way than the listed one
                    rec = json.load(open(path))
                    confirmed = ({"sub": rec["sub"], "case": rec["case"], "traceback": "",
                                  "message": r.stdout.decode(errors="replace")[-1500:]}, path)

        labels, per_sub, samples, nontriv = {}, {}, {}, set()
        for r in results:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r["per_sub"].items():
                d = per_sub.setdefault(k, {"evaluations": 0, "nontrivial": 0, "discarded": 0})
                for kk in d:
                    d[kk] += v[kk]
            for k, v in r["samples"].items():
                samples.setdefault(k, [])
                if len(samples[k]) < 2:
                    samples[k] += v[: 2 - len(samples[k])]
            nontriv.update(r["nontrivial"])
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": sum(r["evaluations"] for r in results),
                "distinct_nontrivial": len(nontriv),
                "rule": mod.RULE,
                "samples": [{"sub": k, "case": c} for k, v in sorted(samples.items()) for c in v],
                "per_sub_check": per_sub,
                "labels": dict(sorted(labels.items())),
                "discarded": sum(r["discarded"] for r in results),
                "truncated_by_budget": sorted({t for r in results for t in r["truncated"]}),
                "worker_seconds": [r["times"] for r in results],
            },
            "assumptions": mod.ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if confirmed else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)

        for l in kf_lines:
            print(l)
        print(f"{prop} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, "
              f"{len(nontriv)} distinct non-trivial, {ev['coverage']['discarded']} discarded, "
              f"{ev['wall_s']} s")
        if confirmed:
            f, path = confirmed
            print(f"{f['sub']}: {f['message']}")
            if f["traceback"]:
                print(f["traceback"][-1500:])
            print("case:", json.dumps(f["case"])[:1500])
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        if viol or harness or crashes:
            for f in viol:
                print("UNCONFIRMED (did not reproduce in a fresh process):", f["sub"], f["message"])
                print(f["traceback"][-1500:])
            for f in harness[:1]:
                print("HARNESS ERROR", f["sub"], f["message"], "\n", f["traceback"][-1500:], json.dumps(f["case"])[:800])
            for c in crashes[:2]:
                print("WORKER CRASH", c)
            sys.exit(2)
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
