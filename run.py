#!/usr/bin/env python3
"""run.py PROP: decides one property against the working tree of /repo.

Builds the harness (which links /repo's packages), runs its generated cases in
parallel workers, writes evidence/PROP.json and prints VIOLATION lines.
Exit 0: held on everything explored. 1: violated. 2: the check couldn't decide.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
SHARDS = 8

# Properties whose workers are built in a special way, or which need a second binary
RACE = {"P24"}
PEER = {"P25": ["-tags", "re2_wasm"]}


def go_env():
    env = dict(os.environ)
    for k in ("GOFLAGS", "GORACE", "GODEBUG", "GOMAXPROCS", "GOEXPERIMENT"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    go = "/opt/veriftools/go1.24.13/bin"
    if os.path.exists(os.path.join(go, "go")):
        env["PATH"] = go + ":" + env.get("PATH", "")
    env.update(TZ="UTC", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOTELEMETRY="off",
               GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    env.pop("GOFLAGS_EXTRA")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["CGO_ENABLED"] = "1"
    return env


def build(tmp, name, flags):
    """Builds from copies of go.mod and go.sum, so nothing tracked is rewritten."""
    mod = os.path.join(tmp, name + ".mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, name + ".sum"))
    out = os.path.join(tmp, name)
    p = subprocess.run(["go", "build", "-modfile=" + mod, *flags, "-o", out, "."],
                       cwd=HARNESS, env=go_env(), capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout + p.stderr)
        print("ERROR: build failed")
        sys.exit(2)
    return out


def run_env():
    env = dict(os.environ)
    env.update(TZ="UTC", GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single")
    env.pop("GODEBUG", None)
    env["GOGC"] = "200"
    return env


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sub=(.*?) case=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), json.dumps(json.loads(m.group(3)), sort_keys=True), m.group(4)))
    return out


def replay(path):
    v = json.load(open(path))
    prop = v["property"]
    tmp = tempfile.mkdtemp(prefix="dpverif-")
    try:
        binary = build(tmp, "worker", ["-race"] if prop in RACE else [])
        peer = build(tmp, "peer", PEER[prop]) if prop in PEER else binary
        p = subprocess.run([binary, "replay", "-file", path, "-peer", peer], env=run_env())
        if p.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--build":
        tmp = tempfile.mkdtemp(prefix="dpverif-")
        try:
            for flags in [[], ["-race"]] + list(PEER.values()):
                build(tmp, "worker", flags)
            return 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="dpverif-")
    try:
        return decide(prop, tier, seed & (2**63 - 1), start, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_crash(binary, tmp, i, entry, extra):
    """Confirms that a case really kills the process. Returns a message, or None."""
    f = os.path.join(tmp, "crash%d.json" % i)
    json.dump({"property": entry["property"], "sub": entry["sub"], "case": entry["case"]}, open(f, "w"))
    p = subprocess.run([binary, "replay", "-file", f, *extra], env=run_env(), capture_output=True, text=True)
    if p.returncode == 0:
        return None
    if p.returncode == 1:
        return p.stdout.strip()
    if p.returncode == 97:
        return "the case never ends: " + p.stderr.strip()[-300:]
    if p.returncode == 66:
        return "data race: " + p.stderr[:1500]
    if p.returncode == 2 and ("fatal error:" in p.stderr or "goroutine " in p.stderr):
        return "process killed: " + p.stderr[:1500]
    return None


def decide(prop, tier, seed, start, tmp):
    meta = json.load(open(os.path.join(HARNESS, "meta.json")))[prop]
    binary = build(tmp, "worker", ["-race"] if prop in RACE else [])
    extra = []
    if prop in PEER:
        extra = ["-peer", build(tmp, "peer", PEER[prop])]
    else:
        extra = ["-peer", binary]

    def work(i):
        out = os.path.join(tmp, "out%d.json" % i)
        jr = os.path.join(tmp, "journal%d" % i)
        err = open(os.path.join(tmp, "err%d" % i), "w+")
        p = subprocess.run([binary, "worker", "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(i),
                            "-shards", str(SHARDS), "-out", out, "-journal", jr, *extra],
                           env=run_env(), stdout=err, stderr=err)
        err.seek(0)
        return i, p.returncode, err.read()

    with ThreadPoolExecutor(SHARDS) as ex:
        results = list(ex.map(work, range(SHARDS)))

    viols, reports, errors = [], [], []
    for i, rc, err in results:
        out = os.path.join(tmp, "out%d.json" % i)
        if rc in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            reports += d["reports"] or []
            viols += d["violations"] or []
            continue
        jr = os.path.join(tmp, "journal%d" % i)
        entry = None
        try:
            entry = json.load(open(jr))
        except Exception:
            pass
        if rc in (2, 66, 97) and entry:
            msg = None
            if rc == 66:
                msg = "data race: " + err[:2500]
            elif rc == 97:
                msg = "the case never ends: " + err.strip()[-300:]
            else:
                msg = replay_crash(binary, tmp, i, entry, extra)
            if msg:
                entry.update(message=msg, seed=seed, tier=tier)
                viols.append(entry)
                continue
        errors.append("worker %d ended with %s: %s" % (i, rc, err[-2000:]))

    # Aggregate
    agg, hashes = {}, set()
    for r in reports:
        a = agg.setdefault(r["sub"], {"cases": 0, "nontrivial": 0, "skipped": 0, "classes": {}, "samples": []})
        for k in ("cases", "nontrivial", "skipped"):
            a[k] += r[k]
        for c, n in r["classes"].items():
            a["classes"][c] = a["classes"].get(c, 0) + n
        for h in r["hashes"] or []:
            hashes.add((r["sub"], h))
        for s in r["samples"] or []:
            if len(a["samples"]) < 4:
                a["samples"].append(s)

    known = known_findings(prop)
    reported, seen_known = [], set()
    for v in viols:
        key = (v["sub"], json.dumps(v["case"], sort_keys=True))
        for k in known:
            if key == k[:2]:
                seen_known.add(k)
                break
        else:
            reported.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))

    samples = []
    for name, a in sorted(agg.items()):
        for s in a["samples"]:
            samples.append({"sub": name, "case": s})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["cases"] for a in agg.values()),
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": samples,
            "per_check": {n: {"cases": a["cases"], "nontrivial": a["nontrivial"], "outside_domain": a["skipped"],
                              "classes": dict(sorted(a["classes"].items(), key=lambda x: -x[1])[:40])}
                          for n, a in sorted(agg.items())},
        },
        "violations": len(reported),
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), ensure_ascii=False, indent=1)

    if reported:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(reported[:10]):
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, v["sub"].replace(" ", "_"), n))
            json.dump(v, open(path, "w"), ensure_ascii=False, indent=1)
            print("%s/%s: %s" % (prop, v["sub"], v["message"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("\n".join(errors))
        print("ERROR: check of %s couldn't finish" % prop)
        return 2
    c = evidence["coverage"]
    print("%s held: %d cases, %d distinct non-trivial, %.1fs" % (prop, c["evaluations"], c["distinct_nontrivial"], evidence["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
