#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: build the monitors with /repo's working tree, run them, judge, write evidence.

exit 0: the property held on everything explored; exit 1 + VIOLATION line: it did not;
exit 2: no answer (build failure, harness error, watchdog, monitors starved of events).
Replay of a violation: see the file named in the VIOLATION line.
"""
import json, os, sys, subprocess, time, hashlib, tempfile, shutil, signal, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.27.3/bin/go"
if not os.path.exists(GO):
    GO = shutil.which("go") or "go"

# property -> binaries whose monitors decide it
PROPS = {
    "C01": ["main"], "C02": ["main"], "C03": ["main"], "C04": ["main"], "C05": ["main", "bpin"],
    "C06": ["lib"], "C07": ["lib"], "C08": ["lib", "bpin"], "C09": ["lib", "bpin"], "C10": ["lib"],
    "C11": ["lib", "main"], "C12": ["lib", "main"], "C13": ["lib", "main"], "C14": ["lib"], "C15": ["lib"],
    "C16": ["lib"], "C17": ["lib"], "C18": ["lib", "main"], "C19": ["main-race", "lib-race"], "C20": ["lib"],
    "C21": ["lib", "bpin"],
}
FORGERS = {"C03"}  # use the adversarial prover of the bpin directory from outside of its package
LIMIT = {"quick": 780, "thorough": 5400}


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", CGO_ENABLED="1", GOTELEMETRY="off")
    e["PATH"] = os.path.dirname(GO) + ":" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def overlay(work, bp):
    """bp: bpin (adversarial prover, uses names internal to the package) or bpstub"""
    rep = {}
    for d, dst in (("vlib", "zzverif/vlib"), ("lib", "zzverif/lib"), (bp, "bulletproofs"), ("main", "")):
        src = os.path.join(HERE, "harness", d)
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, dst, f)] = os.path.join(src, f)
    # the repository's own tests are not part of the monitors (main_test.go does not even compile)
    for d in ("", "bulletproofs"):
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith("_test.go"):
                rep[os.path.join(REPO, d, f)] = ""
    p = os.path.join(work, bp + ".json")
    with open(p, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return p


PKG = {"main": ".", "lib": "./zzverif/lib", "bpin": "./bulletproofs"}


def build(binary, work, quiet, bp):
    base, _, race = binary.partition("-")
    ov = overlay(work, bp)
    out = os.path.join(work, binary + ".test")
    cmd = [GO, "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(PKG[base])
    p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0 or not os.path.exists(out):
        print(("NOTE: not built (internal names changed?): " if quiet else "BUILD FAILED: ") + " ".join(cmd))
        print(p.stdout[-300 if quiet else -4000:])
        return None
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = os.environ.get("VERIF_CASE", "")
    bins = PROPS[prop]
    if only and os.environ.get("VERIF_BIN"):
        bins = [os.environ["VERIF_BIN"]]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, only, bins, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, only, bins, work, t0):
    built = {}
    for b in list(bins):
        if b == "bpin":
            # monitors inside the package: without them the property is decided by the others alone
            built[b] = build(b, work, len(bins) > 1, "bpin")
            if built[b] is None and len(bins) > 1:
                bins = [x for x in bins if x != b]
                continue
        elif b == "main" and prop in FORGERS:
            built[b] = build(b, work, True, "bpin") or build(b, work, False, "bpstub")
        else:
            built[b] = build(b, work, False, "bpstub")
        if built[b] is None:
            return 2
    t_build = time.time() - t0
    shards = 1 if only else int(os.environ.get("VERIF_JOBS", "8"))
    procs = []
    for b in bins:
        race = b.endswith("-race")
        n = shards
        for i in range(n):
            out = os.path.join(work, "%s.%d.json" % (b, i))
            e = env()
            e.update(VERIF_PROP=prop, VERIF_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD="%d/%d" % (i, n))
            claims = os.path.join(work, b + ".claims")
            os.makedirs(claims, exist_ok=True)
            e["VERIF_CLAIMS"] = claims
            if only:
                e["VERIF_CASE"] = only
            else:
                e.pop("VERIF_CASE", None)
            if race:
                e["GORACE"] = "halt_on_error=0 exitcode=66 atexit_sleep_ms=0 history_size=3"
            else:
                e["GOMAXPROCS"] = "2"
            e["GOMEMLIMIT"] = "3GiB"
            log = open(os.path.join(work, "%s.%d.log" % (b, i)), "wb")
            procs.append([b, i, out, log, None, [built[b], "-test.run", "^TestVerif$", "-test.timeout", "0"], e])
    # run at most 8 at a time
    deadline = t0 + LIMIT[tier]
    pending, running, done = list(procs), [], []
    timeout = False
    while pending or running:
        while pending and len(running) < 8:
            p = pending.pop(0)
            cwd = os.path.join(work, "cwd")
            os.makedirs(cwd, exist_ok=True)
            p[4] = subprocess.Popen(p[5], cwd=cwd, env=p[6], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=p[3], start_new_session=True)
            running.append(p)
        for p in list(running):
            if p[4].poll() is not None:
                running.remove(p)
                done.append(p)
        if time.time() > deadline:
            timeout = True
            for p in running:
                try:
                    os.killpg(p[4].pid, signal.SIGKILL)
                except OSError:
                    pass
                p[4].wait()
            break
        time.sleep(0.02)
    merged = dict(evaluations=0, events={}, distinct=set(), samples=[], violations=[], errors=[], require={}, prefer={}, cases=0, rule=[], notes={})
    for b, i, out, log, p, _, _ in procs:
        log.close()
        text = open(log.name, "rb").read().decode("utf8", "replace")
        races = race_reports(text) if b.endswith("-race") else []
        for r in races:
            merged["violations"].append(dict(case="race", msg="data race: " + r, bin=b))
        merged["events"]["race_detector_processes"] = merged["events"].get("race_detector_processes", 0) + (1 if b.endswith("-race") else 0)
        if not os.path.exists(out):
            if not timeout:
                crash = fatal(text)
                if crash:
                    merged["violations"].append(dict(case="crash", msg=crash, bin=b))
                else:
                    merged["errors"].append("%s shard %d wrote no result (rc=%s): %s" % (b, i, p.returncode if p else None, text[-1500:]))
            continue
        r = json.load(open(out))
        merged["evaluations"] += r["evaluations"]
        merged["cases"] += r["cases"]
        for k, v in (r["events"] or {}).items():
            merged["events"][k] = merged["events"].get(k, 0) + v
        merged["distinct"].update(r["distinct"] or [])
        if r["samples"]:
            merged["samples"] += r["samples"][:2]
        for v in r["violations"] or []:
            v["bin"] = b
            merged["violations"].append(v)
        merged["errors"] += r["errors"] or []
        merged["notes"].update({b + ":" + k: v for k, v in (r["notes"] or {}).items()})
        for k, v in (r["require"] or {}).items():
            merged["require"][k] = max(v, merged["require"].get(k, 0))
        for k, v in (r.get("prefer") or {}).items():
            merged["prefer"][k] = max(v, merged["prefer"].get(k, 0))
        if r["rule"] and r["rule"] not in merged["rule"]:
            merged["rule"].append(r["rule"])
    if not any(x.endswith("-race") for x in bins):
        merged["events"].pop("race_detector_processes", None)

    known = load_known(prop)
    fresh, suppressed = [], {}
    for v in merged["violations"]:
        k = next((k for k in known if k["case"] == v["case"] and k["match"] in v["msg"]), None)
        if k:
            suppressed[k["what"]] = k
        else:
            fresh.append(v)
    missing = {k: (merged["events"].get(k, 0), v) for k, v in merged["require"].items() if merged["events"].get(k, 0) < v}
    weak = {k: (merged["events"].get(k, 0), v) for k, v in merged["prefer"].items() if merged["events"].get(k, 0) < v}
    wall = time.time() - t0
    verdict = "violation" if fresh else ("inconclusive" if (merged["errors"] or timeout or (missing and not only)) else "held")
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), build_s=round(t_build, 2),
              verdict=verdict,
              coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(merged["distinct"]),
                            rule=" | ".join(merged["rule"]), samples=merged["samples"][:12], cases=merged["cases"],
                            monitor_events=dict(sorted(merged["events"].items())),
                            required_events=merged["require"], usual_events=merged["prefer"], weaker_than_usual=weak),
              known_findings=sorted(suppressed), violations=fresh[:20], errors=merged["errors"][:10], timed_out=timeout)
    if not only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    for w in sorted(suppressed):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if fresh:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % prop)
        with open(rp, "w") as fh:
            fh.write("Violations of %s seen with tier=%s seed=%d. Replay one case with\n" % (prop, tier, seed))
            for v in fresh[:20]:
                fh.write("  VERIF_SEED=%d VERIF_BIN=%s VERIF_CASE='%s' python3 %s %s %s\n    %s\n" %
                         (seed, v["bin"], v["case"], os.path.abspath(__file__), prop, tier, v["msg"]))
        for v in fresh[:6]:
            print("  [%s] %s" % (v["case"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s %s: %s; %d cases, %d evaluations, %d distinct, %.1fs (build %.1fs)" %
          (prop, tier, verdict, merged["cases"], merged["evaluations"], len(merged["distinct"]), wall, t_build))
    if weak and not only:
        print("NOTE: hooks saw less than usual (observed, usual): %r" % weak)
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(ev["coverage"]["monitor_events"]))
        print("slowest (ms):", sorted(((v, k) for k, v in merged["notes"].items()), reverse=True)[:6])
    if verdict == "inconclusive":
        for e in merged["errors"][:5]:
            print("ERROR " + e)
        if timeout:
            print("ERROR watchdog")
        if missing:
            print("ERROR monitors starved: %r" % missing)
        return 2
    return 0


def race_reports(text):
    out = []
    for blk in text.split("WARNING: DATA RACE")[1:]:
        files = re.findall(r"(\S+\.go:\d+)", blk.split("==================")[0])
        files = [f for f in files if "/runtime/" not in f and "zzverif" not in f and "/testing/" not in f]
        s = " < ".join(files[:4])
        if s not in out:
            out.append(s)
    return out


def fatal(text):
    """A Go runtime abort caused by the code under test (not recoverable in process)."""
    m = re.search(r"^fatal error: (.*)$", text, re.M)
    if m and "out of memory" not in m.group(1):
        return m.group(0) + " " + " < ".join(re.findall(r"(/repo/\S+\.go:\d+)", text)[:4])
    m = re.search(r"^panic: (.*)$", text, re.M)
    if m and "verif harness" not in m.group(1):
        frames = re.findall(r"(/repo/(?!zzverif)\S+\.go:\d+)", text)
        if frames:
            return m.group(0) + " " + " < ".join(frames[:4])
    return None


def load_known(prop):
    """known-findings.txt: lines 'finding: property=<id> case=<id> match=<text> :: <what fails>' suppress exactly
    that case and message; lines 'fixed: ...' suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(case=m.group(2), match=m.group(3), what=m.group(4)))
    return out


if __name__ == "__main__":
    sys.exit(main())
