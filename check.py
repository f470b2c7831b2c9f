#!/usr/bin/env python3
"""Runner of the checks: builds the harness from /repo's working tree, runs its shards, merges what the monitors
observed, and decides.

    check.py PROPERTY [quick|thorough] [--only CASE] [--repo DIR]

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>"; exit 2: error of the check.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO_MOD = "github.com/kitex-contrib/xds"

sys.path.insert(0, VERIF)
from rules import RULES  # noqa: E402

GO = "/opt/veriftools/go1.25.14/bin"


def env():
    e = dict(os.environ)
    e.update(GOENV="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local",
             GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOCACHE=os.environ.get("VERIF_GOCACHE", os.path.join(VERIF, ".cache", "go-build")))
    e.pop("GOROOT", None)
    e.pop("GOEXPERIMENT", None)
    e.pop("GODEBUG", None)
    e["PATH"] = GO + ":" + e.get("PATH", "/usr/bin:/bin")
    return e


def build(scr, race, repo):
    out = os.path.join(scr, "race.test" if race else "plain.test")
    cmd = ["go", "test", "-c", "-tags", "verif", "-ldflags=-checklinkname=0", "-o", out]
    # the module files are used from the scratch directory, so that the build never rewrites committed files
    mod = os.path.join(scr, "go.mod")
    if not os.path.exists(mod):
        with open(os.path.join(HARNESS, "go.mod")) as f:
            text = f.read()
        text = text.replace("=> /repo", "=> " + repo)
        text = text.replace("=> ./stubs", "=> " + os.path.join(HARNESS, "stubs"))
        with open(mod, "w") as f:
            f.write(text)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scr, "go.sum"))
    cmd += ["-modfile", mod]
    if race:
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("harness: build failed")
        sys.exit(2)
    return out


def frames(section):
    """(function, file) pairs of one stack, innermost first."""
    out = []
    lines = section.split("\n")
    i = 0
    while i + 1 < len(lines):
        fn, loc = lines[i].strip(), lines[i + 1].strip()
        m = re.match(r"(.*\.go):(\d+)", loc)
        if m and fn:
            out.append((fn.rsplit("(", 1)[0], m.group(1)))
            i += 2
        else:
            i += 1
    return out


def races(text):
    """race reports with an access made by the repository: (stable key, text)"""
    res = []
    for blk in text.split("=================="):
        if "WARNING: DATA RACE" not in blk:
            continue
        parts = re.split(r"\n(?=(?:Read|Write|Previous read|Previous write|Atomic|Previous atomic|Goroutine)[^\n]* (?:at|by|\())", blk)
        acc = [p for p in parts if re.match(r"(Read|Write|Previous|Atomic)", p.strip())]
        inner, anywhere = [], []
        upstream = False
        for a in acc[:2]:
            fs = frames(a.split("\n", 1)[1] if "\n" in a else "")
            # Kitex's retryers read their policy again without their lock: whatever a policy is made of races
            upstream = upstream or any(f[0].endswith("retry.(*failureRetryer).Do") or f[0].endswith("retry.(*backupRetryer).Do") for f in fs)
            user = [f for f in fs if "/go1." not in f[1] and "/src/runtime" not in f[1]]
            inner.append(user[0][0] if user else "?")
            anywhere.append(any(f[0].startswith(REPO_MOD + "/") for f in fs))
        if upstream and not all(i.startswith(REPO_MOD + "/") for i in inner):
            continue
        if any(i.startswith(REPO_MOD + "/") for i in inner) or (len(anywhere) == 2 and all(anywhere)):
            res.append(("race:" + "|".join(sorted(inner)), blk.strip()[:4000]))
    return res


CRASH = re.compile(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV)", re.M)


def crash_in_repo(err, repo):
    m = CRASH.search(err)
    if not m:
        return None
    tail = err[m.start():]
    # the goroutine that crashed is dumped first
    g = tail.split("\n\n")
    body = "\n\n".join(g[:3]) if m.group(1).startswith("panic") else tail
    for line in body.split("\n"):
        if line.startswith("\t" + repo + "/") or line.startswith(REPO_MOD + "/") or " " + REPO_MOD + "/" in line[:200]:
            return tail[:5000]
    return None


def main():
    args = [a for a in sys.argv[1:]]
    only, repo = None, os.environ.get("VERIF_REPO", "/repo")
    if "--only" in args:
        i = args.index("--only")
        only = args[i + 1]
        del args[i:i + 2]
    if "--repo" in args:
        i = args.index("--repo")
        repo = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    rule = RULES[prop]
    modes = rule.get("modes", ["plain"])
    scr = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, only, repo, modes, rule, scr, t0)
    finally:
        shutil.rmtree(scr, ignore_errors=True)


def run(prop, tier, seed, only, repo, modes, rule, scr, t0):
    evd = os.path.join(VERIF, "evidence")
    rep = os.path.join(evd, "replays")
    os.makedirs(rep, exist_ok=True)
    violations, notes, errors = [], [], []
    counters, hashes, samples = {}, {}, []
    limit = 780 if tier == "quick" else 3600
    build_s = 0.0
    for mode in modes:
        b0 = time.time()
        binary = build(scr, mode == "race", repo)
        build_s += time.time() - b0
        shards = 1 if only else int(os.environ.get("VERIF_SHARDS", "0")) or rule.get("shards", {}).get(mode, 8)
        procs = []
        for s in range(shards):
            d = os.path.join(scr, "%s-%d" % (mode, s))
            os.makedirs(d)
            e = env()
            e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % d
            e["GOTRACEBACK"] = "all"
            cmd = [binary, "-test.run", "^TestVerif$", "-test.timeout", "0", "-prop", prop, "-tier", tier, "-seed", str(seed),
                   "-shard", str(s), "-shards", str(shards), "-mode", mode, "-out", d + "/out.json", "-scratch", d]
            if only:
                cmd += ["-only", only]
            log = open(d + "/log", "w")
            procs.append((subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT), d, s))
        for p, d, s in procs:
            left = limit - (time.time() - t0)
            try:
                p.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append("%s shard %d: time limit" % (mode, s))
            with open(d + "/log", errors="replace") as f:
                out = f.read()
            cur = ""
            if os.path.exists(d + "/out.json.cur"):
                with open(d + "/out.json.cur") as f:
                    cur = f.read()
            res = None
            if os.path.exists(d + "/out.json"):
                with open(d + "/out.json") as f:
                    res = json.load(f)
            if res:
                violations += [dict(v, mode=mode) for v in res["violations"] or []]
                notes += res["notes"] or []
                errors += res["errors"] or []
                for k, v in (res["counters"] or {}).items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in (res["hashes"] or {}).items():
                    hashes.setdefault(k, set()).update(v)
                if len(samples) < 6:
                    samples += (res["samples"] or [])[:6 - len(samples)]
            if not (res and (res["done"] or p.returncode == 3)):
                c = crash_in_repo(out, repo)
                if c:
                    violations.append(dict(property=prop, key="crash", case=cur, msg="the process crashed in the repository's code:\n" + c, mode=mode))
                elif not any("time limit" in x for x in errors):
                    errors.append("%s shard %d ended with %s in case %s:\n%s" % (mode, s, p.returncode, cur, out[-3000:]))
            if mode == "race":
                for f in glob.glob(d + "/race.*"):
                    with open(f, errors="replace") as fh:
                        text = fh.read()
                    counters["race_reports"] = counters.get("race_reports", 0) + text.count("WARNING: DATA RACE")
                    for key, blk in races(text):
                        violations.append(dict(property=prop, key=key, case="", msg=blk, mode=mode))
    known = {}
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            for k in json.load(f).get("known", []):
                known[(k["property"], k["key"])] = k
    fresh, seen_known = [], set()
    for v in violations:
        if (v["property"], v["key"]) in known:
            seen_known.add((v["property"], v["key"]))
        else:
            fresh.append(v)
    for k in sorted(known):
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    nd = len(hashes.get("nontrivial", ()))
    cov = {
        "evaluations": counters.get("evaluations", counters.get("cases", 0)),
        "distinct_nontrivial": nd,
        "rule": rule["rule"],
        "samples": samples,
        "observed": {k: counters[k] for k in sorted(counters)},
        "distinct": {k: len(v) for k, v in sorted(hashes.items())},
        "build_s": round(build_s, 1),
    }
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=rule.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for n in notes[:5]:
        print("note (another property): " + n[:600])
    if fresh:
        seen = set()
        for i, v in enumerate(fresh):
            if v["key"] in seen and len(seen) > 0:
                continue
            seen.add(v["key"])
            if len(seen) > 5:
                break
            path = os.path.join(rep, "%s-%d.json" % (prop, len(seen)))
            v = dict(v, seed=seed, tier=tier, replay_cmd="VERIF_SEED=%d python3 %s/check.py %s %s --only %s" % (seed, VERIF, prop, tier, v["case"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("%s [%s] case %s: %s" % (prop, v["key"], v["case"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for x in errors[:5]:
            print("harness error: " + x[:3000])
        return 2
    if not only and (cov["evaluations"] == 0 or nd == 0):
        print("harness error: nothing was observed")
        return 2
    print("%s %s: held on %d executions (%d distinct non-trivial), %.1f s" % (prop, tier, cov["evaluations"], nd, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
