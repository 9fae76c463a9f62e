#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--keep]

Builds the harness of a property from the repository's working tree, runs its
workloads (sharded over the cores) under sanitizers and monitors, merges what
the monitors observed, applies the known-findings file and writes the evidence.

exit 0: held on everything explored; 1: VIOLATION printed; 3: inconclusive
(could not build, a monitor observed nothing, ...).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
from checks import CHECKS  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """lines: 'finding: property=<id> key=<regex> <description>' (fixed: lines suppress nothing)"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2) + r"\Z"), m.group(3), m.group(2)))
    return res


SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=0:max_allocation_size_mb=6000:handle_abort=1:print_legend=0:"
                    "detect_invalid_pointer_pairs=0:strict_init_order=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
}


VALGRIND = ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=98", "--exit-on-first-error=yes",
            "--track-origins=yes", "--num-callers=24", "--leak-check=no"]


def memcheck(pids, seed, tier, work, replay=None):
    """The same workloads, uninstrumented, under memcheck: only invalid and undefined memory counts here (the
    emulation computes long double in double, so the monitors' verdicts are not taken).  yields
    (violations, cases, problems)"""
    viols, cases, problems = [], {}, []
    for pid, scale in pids:
        spec = CHECKS[pid]
        try:
            exe, _ = B.build(spec["harness"], spec["modules"], "plain", spec.get("flags", ()), spec.get("sources", ()),
                             opt="-O1")
        except RuntimeError as e:
            print(e)
            problems.append("memcheck build of %s failed" % pid)
            continue
        procs = []
        for k in range(8):
            d = os.path.join(work, "mc_%s_%d" % (pid, k))
            os.makedirs(d, exist_ok=True)
            cmd = VALGRIND + [exe, "--prop", pid, "--seed", str(seed), "--tier", tier, "--shard", str(k), "--nshards",
                              "8", "--out", os.path.join(d, "o.json"), "--crumb", os.path.join(d, "crumb"),
                              "--scratch", d, "--scale", str(scale), "--limit", "3000"]
            if replay:
                cmd += ["--stream", replay["stream"], "--case", str(replay["case"])]
            err = open(os.path.join(d, "err"), "wb")
            procs.append((k, d, subprocess.Popen(cmd, cwd=d, stdout=err, stderr=err), cmd))
            if replay:
                break
        for k, d, p, cmd in procs:
            rc = p.wait()
            if rc == 0 and os.path.exists(os.path.join(d, "o.json")):
                for s, n in json.load(open(os.path.join(d, "o.json")))["cases"].items():
                    cases["%s/%s" % (pid, s)] = cases.get("%s/%s" % (pid, s), 0) + n
            elif rc == 98:
                text = tail(os.path.join(d, "err"))
                m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|"
                              r"Mismatched|Syscall param|Source and dest|Jump to|[A-Z].{10,40})", text)
                cr = tail(os.path.join(d, "crumb")).split()
                key = "memcheck:" + re.sub(r"[^a-z]+", "-", m.group(1).lower() if m else "error").strip("-")
                viols.append(dict(key=key, stream=cr[0] if cr else "?", index=int(cr[1]) if len(cr) > 1 else 0,
                                  msg="%s under memcheck\n%s" % (pid, text[m.start() if m else 0:][:3000]),
                                  memcheck=pid))
            else:
                problems.append("memcheck run of %s ended with %d" % (pid, rc))
    return viols, cases, problems


def run_shards(exe, pid, spec, seed, tier, work, nsh, extra, scale):
    procs = []
    for k in range(nsh):
        out = os.path.join(work, "out%d.json" % k)
        crumb = os.path.join(work, "crumb%d" % k)
        err = open(os.path.join(work, "err%d" % k), "wb")
        scratch = os.path.join(work, "scratch%d" % k)
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ)
        env.update(SAN)
        env.update(spec.get("env", {}))
        cmd = [exe, "--prop", pid, "--seed", str(seed), "--tier", tier, "--shard", str(k), "--nshards", str(nsh),
               "--out", out, "--crumb", crumb, "--scratch", scratch, "--scale", str(scale),
               "--limit", str(spec.get("limit", 60))] + extra
        procs.append(dict(k=k, p=subprocess.Popen(cmd, cwd=scratch, stdout=err, stderr=err, env=env), cmd=cmd,
                          out=out, crumb=crumb, err=err.name, env=env, scratch=scratch))
    return procs


def tail(path, n=4000):
    try:
        with open(path, "rb") as f:
            d = f.read()
        return d.decode("utf-8", "replace")
    except OSError:
        return ""


def crash_key(text, rc):
    m = re.search(r"AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"LeakSanitizer: ([\w ]+)", text)
    if m:
        return "lsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"ThreadSanitizer: ([\w -]+)", text)
    if m:
        return "tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: (.{0,60})", text)
    if m:
        return "ubsan:" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40]
    m = re.search(r"MON: terminate", text)
    if m:
        return "terminate"
    return "crash:rc%d" % rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, help="multiplies the number of random cases")
    ap.add_argument("--stream")
    ap.add_argument("--config")
    ap.add_argument("--opt")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    t0 = time.time()
    os.chdir(VERIF)
    if a.scale is None:
        a.scale = spec.get("quick_scale", 4.0) if tier == "quick" else 1.0
    config = a.config or spec.get("config", "asan")
    wd = os.path.join(VERIF, "work")
    os.makedirs(wd, exist_ok=True)
    try:
        exe, tb = B.build(spec["harness"], spec["modules"], config, spec.get("flags", ()), spec.get("sources", ()),
                         opt=a.opt or spec.get("opt", {}).get(tier) or ("-O0" if tier == "quick" else "-O1"))
    except RuntimeError as e:
        print(e)
        print("INCONCLUSIVE property=%s: harness does not build against this tree" % pid)
        sys.exit(3)
    if a.replay:
        r = json.load(open(a.replay))
        if r.get("memcheck"):
            sc = tempfile.mkdtemp(prefix="replay", dir=wd)
            v, _, _ = memcheck([(r["memcheck"], 1.0)], r["seed"], r["tier"], sc, r)
            shutil.rmtree(sc, ignore_errors=True)
            print("\n".join(x["msg"] for x in v))
            sys.exit(1 if v else 0)
        env = dict(os.environ)
        env.update(SAN)
        env.update(spec.get("env", {}))
        sc = tempfile.mkdtemp(prefix="replay", dir=wd)
        cmd = [exe, "--prop", pid, "--seed", str(r["seed"]), "--tier", r["tier"], "--stream", r["stream"], "--case",
               str(r["case"]), "--replay", "--scratch", sc, "--limit", "600", "--out", os.path.join(sc, "out.json")]
        print(" ".join(cmd))
        rc = subprocess.run(cmd, env=env, cwd=sc).returncode
        bad = rc != 0 or json.load(open(os.path.join(sc, "out.json")))["violations"]
        shutil.rmtree(sc, ignore_errors=True)
        sys.exit(1 if bad else 0)

    work = tempfile.mkdtemp(prefix=pid + "_", dir=wd)
    nsh = spec.get("shards", 8)
    viols = []       # dict(key, stream, index, msg)
    merged = dict(events={}, cases={}, discards={}, discard_why={}, notes={}, samples=[], sigs=set(), case_sigs=set(),
                  expected=set(), viol_counts={})
    inconclusive = []
    extra = ["--stream", a.stream] if a.stream else []
    t1 = time.time()
    pending = run_shards(exe, pid, spec, seed, tier, work, nsh, extra, a.scale)
    crashes = 0
    while pending:
        nxt = []
        for pr in pending:
            rc = pr["p"].wait()
            if os.path.exists(pr["out"]) and rc == 0:
                o = json.load(open(pr["out"]))
                for f in ("events", "cases", "discards", "discard_why"):
                    for k, v in o[f].items():
                        merged[f][k] = merged[f].get(k, 0) + v
                for k, v in o["violation_counts"].items():
                    merged["viol_counts"][k] = merged["viol_counts"].get(k, 0) + v
                for k, v in o["notes"].items():
                    merged["notes"][k] = max(merged["notes"].get(k, v), v)
                merged["samples"] += o["samples"]
                merged["sigs"].update(o["sigs"])
                merged["case_sigs"].update(o["case_sigs"])
                merged["expected"].update(o["expected"])
                viols += o["violations"]
                continue
            # abnormal end: attribute to the case in the breadcrumb
            text = tail(pr["err"])
            cr = tail(pr["crumb"]).split()
            stream, idx = (cr[0], int(cr[1])) if len(cr) >= 2 else ("?", 0)
            state = cr[2] if len(cr) > 2 else ""
            if rc == 97:
                # hang: retry the single case with a larger limit before believing it
                cmd = [exe, "--prop", pid, "--seed", str(seed), "--tier", tier, "--stream", stream, "--case", str(idx),
                       "--limit", str(4 * spec.get("limit", 60)), "--out", pr["out"] + ".retry", "--scratch",
                       pr["scratch"]]
                rr = subprocess.run(cmd, cwd=pr["scratch"], env=pr["env"], stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT)
                if rr.returncode == 97:
                    viols.append(dict(key="hang", stream=stream, index=idx, msg="case does not terminate"))
                elif rr.returncode != 0:
                    t = rr.stdout.decode("utf-8", "replace")
                    viols.append(dict(key=crash_key(t, rr.returncode), stream=stream, index=idx, msg=t[-3000:]))
                else:
                    viols += json.load(open(pr["out"] + ".retry"))["violations"]
            elif rc < 0 and -rc == 9:
                inconclusive.append("shard %d killed (SIGKILL)" % pr["k"])
                continue
            elif state == "done" and rc == 0:
                inconclusive.append("shard %d wrote no result" % pr["k"])
                continue
            else:
                key = crash_key(text, rc)
                m = re.search(r"(==\d+==ERROR|runtime error:|WARNING: ThreadSanitizer|MON: terminate)", text)
                at = max(0, m.start() - 200) if m else max(0, len(text) - 3000)
                viols.append(dict(key=key, stream=stream, index=idx, msg=text[at:at + 3000]))
            crashes += 1
            if state == "done" or crashes > 24:
                continue
            # continue after the crashed case
            ext = ["--start-stream", stream, "--start-case", str(idx + 1)]
            base = [c for c in pr["cmd"]]
            pr2 = dict(pr)
            pr2["cmd"] = base[:base.index("--start-stream")] + ext if "--start-stream" in base else base + ext
            if os.path.exists(pr["out"]):
                os.remove(pr["out"])
            err = open(pr["err"], "wb")
            pr2["p"] = subprocess.Popen(pr2["cmd"], cwd=pr["scratch"], stdout=err, stderr=err, env=pr["env"])
            nxt.append(pr2)
        pending = nxt
    mc_cases = {}
    if "memcheck" in spec and not a.stream:
        v, mc_cases, pr = memcheck(spec["memcheck"][tier], seed, tier, work)
        viols += v
        inconclusive += pr
        if not mc_cases and not v:
            inconclusive.append("memcheck saw no case")
    t2 = time.time()

    known = known_findings(pid)
    hit_known, new = {}, []
    for v in viols:
        full = v["stream"] + "/" + v["key"]
        for rx, desc, pat in known:
            if rx.match(full):
                hit_known.setdefault(pat, (desc, 0))
                hit_known[pat] = (desc, hit_known[pat][1] + 1)
                break
        else:
            new.append(v)
    missing = [k for k in sorted(merged["expected"]) if merged["events"].get(k, 0) == 0]
    ncases = sum(merged["cases"].values())
    if not new and not a.stream:
        if missing:
            inconclusive.append("monitors that observed nothing: " + ", ".join(missing))
        if ncases == 0 and not viols:
            inconclusive.append("no case was run")
        if ncases and sum(merged["discards"].values()) > 0.6 * ncases:
            inconclusive.append("too many discarded cases")

    byev = sorted(merged["events"].items())
    samples = merged["samples"][:6] or ["%s:%d cases" % kv for kv in sorted(merged["cases"].items())][:6]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=ncases, distinct_nontrivial=len(merged["case_sigs"]),
                            rule=spec["rule"], samples=samples, cases_by_workload=merged["cases"],
                            discarded=merged["discards"], discard_reasons=merged["discard_why"],
                            distinct_states_observed=len(merged["sigs"]),
                            monitor_events=dict(byev), monitor_evaluations=sum(merged["events"].values()),
                            maxima=merged["notes"], build_s=round(tb, 2), run_s=round(t2 - t1, 2),
                            sanitizers=config, memcheck_cases=mc_cases, known_findings_hit={k: v[1] for k, v in hit_known.items()}),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    # every listed finding is announced; those that were reached are counted above
    for rx, desc, pat in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, desc))
    if new:
        rd = os.path.join(VERIF, "work", "replays")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for v in new:
            k = v["key"]
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 1:
                continue
            rp = os.path.join(rd, "%s_%s_%d.json" % (pid, re.sub(r"[^\w.-]+", "_", k)[:60], v["index"]))
            json.dump(dict(property=pid, seed=seed, tier=tier, stream=v["stream"], case=v["index"], key=k,
                           memcheck=v.get("memcheck"), msg=v["msg"], how="python3 check.py %s --replay %s" % (pid, rp)), open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  monitor=%s workload=%s case=%d\n  %s" % (k, v["stream"], v["index"],
                                                            v["msg"][:1200].replace("\n", "\n  ")))
    print("%s %s seed=%d: %d cases, %d distinct, %d monitor evaluations, %d states, build %.1fs run %.1fs" % (
        pid, tier, seed, ncases, len(merged["case_sigs"]), sum(merged["events"].values()), len(merged["sigs"]), tb,
        t2 - t1))
    if merged["discard_why"]:
        print("  discarded: %s" % merged["discard_why"])
    shutil.rmtree(work, ignore_errors=True)
    if new:
        sys.exit(1)
    if inconclusive:
        for m in inconclusive:
            print("INCONCLUSIVE property=%s: %s" % (pid, m))
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
