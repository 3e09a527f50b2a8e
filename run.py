#!/usr/bin/env python3
"""Driver of every check.

  run.py setup                 build the harness (all flavours used by quick checks)
  run.py check ID              run the check of property ID (VERIF_TIER, VERIF_SEED)
  run.py replay FILE           re-run the case recorded in a replay file

A check is a list of stages.  Each stage runs a harness flavour (plain, asan, tsan ...) over one or more
groups of case families, split over processes (shards).  Oracles live in the harness; this driver only
builds, collects, matches known findings, writes evidence and decides the exit code.
"""
import json, os, re, subprocess, sys, time, shutil, signal, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS, FLAVOURS  # noqa: E402

NCPU = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTFLAGS", "CFLAGS", "CARGO_INCREMENTAL"):
            del e[k]
    e.update({
        "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
        "PATH": "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
        "HODU_DISABLE_NATIVE": "1", "OPENBLAS_NUM_THREADS": "1",
        "CC": os.path.join(ROOT, "bin/hvcc"),
        "CCACHE_DIR": os.path.join(BUILD, "ccache"), "CCACHE_COMPILERCHECK": "content",
        "CCACHE_MAXSIZE": "3G",
    })
    return e


def build(flavour):
    f = FLAVOURS[flavour]
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-" + flavour)
    e.update(f.get("env", {}))
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    r = subprocess.run(["cargo"] + f.get("cargo", ["build"]) + ["--offline"] + (["--bins"] if flavour == "plain" else ["--bin", f.get("bin", "hv")]), cwd=os.path.join(ROOT, f.get("crate", "harness")), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("BUILD FAILED (%s)" % flavour)
        sys.exit(2)
    log("built %s in %.1fs" % (flavour, time.time() - t))
    return os.path.join(e["CARGO_TARGET_DIR"], f.get("out", "debug"), f.get("bin", "hv"))


def known(prop):
    """known-findings.json: list of {property, status, sig, ...}; only status=known suppresses, by exact signature."""
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k.get("status") == "known"]


def run_stage(prop, st, seed, tier, work):
    """returns a merged outcome dict"""
    flavour = st.get("flavour", "plain")
    f = FLAVOURS[flavour]
    binp = build(flavour)
    env = base_env()
    env.update(f.get("run_env", {}))
    env.update(st.get("env", {}))
    env["HV_ROOT"] = ROOT
    thorough = tier == "thorough"
    cap = st.get("secs_thorough", 600) if thorough else st.get("secs", 60)
    procs = []
    n = 0
    shards = st.get("shards", NCPU)
    groups = st["groups"]
    for g in groups:
        for sh in range(shards):
            procs.append((g, sh))
    merged = {"evals": 0, "skipped": 0, "hashes": set(), "samples": [], "violations": [], "counters": {}, "per_family": {}, "truncated": False}
    pending = list(procs)
    running = []
    errs = []

    def launch(g, sh):
        tag = "%s-%s-%d" % (flavour, g, sh)
        out = os.path.join(work, tag + ".json")
        cf = os.path.join(work, tag + ".case")
        lg = os.path.join(work, tag + ".log")
        scratch = os.path.join(work, tag + ".d")
        os.makedirs(scratch, exist_ok=True)
        cmd = [binp, "run", g, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (sh, shards), "--out", out,
               "--casefile", cf, "--max-secs", str(max(3.0, cap / max(1, len(groups)))), "--scale", str(st.get("scale_thorough", 1) if thorough else st.get("scale", 1))]
        if st.get("families"):
            cmd += ["--family", ",".join(st["families"])]
        if st.get("wrap"):
            cmd = st["wrap"] + cmd
        e = dict(env)
        e["TMPDIR"] = scratch
        lf = open(lg, "wb")
        p = subprocess.Popen(cmd, env=e, cwd=scratch, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        running.append({"p": p, "g": g, "sh": sh, "out": out, "cf": cf, "lg": lg, "t": time.time()})

    hard = cap * 2 + 60
    listed = {k["sig"] for k in known(prop)}
    stop = None  # a violation decides a quick check: nothing more is started, and what runs gets a moment to end
    while pending or running:
        if stop is None and not thorough and any(v["sig"] not in listed for v in merged["violations"]):
            stop = time.time() + 45
            merged["truncated"] |= bool(pending)
            pending = []
        if stop is not None and time.time() > stop:
            for r in running:
                try:
                    os.killpg(r["p"].pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                r["p"].wait()
            merged["truncated"] |= bool(running)
            break
        while pending and len(running) < st.get("parallel", NCPU):
            launch(*pending.pop(0))
        time.sleep(0.02)
        for r in list(running):
            rc = r["p"].poll()
            if rc is None:
                if time.time() - r["t"] > hard:
                    os.killpg(r["p"].pid, signal.SIGKILL)
                    r["p"].wait()
                    rc = "timeout"
                else:
                    continue
            running.remove(r)
            try:
                os.killpg(r["p"].pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            if os.path.exists(r["out"]) and rc == 0:
                o = json.load(open(r["out"]))
                merged["evals"] += o["evals"]
                merged["skipped"] += o["skipped"]
                merged["truncated"] |= o["truncated"]
                merged["hashes"].update(h for h in o["hashes"].split(",") if h)
                merged["samples"] += o["samples"]
                for v in o["violations"]:
                    # a memory stage judges memory: values are judged by the properties that own the oracle
                    if st.get("values_of") is not None and r["g"] not in st["values_of"]:
                        continue
                    v["group"] = r["g"]
                    v["flavour"] = flavour
                    merged["violations"].append(v)
                for k, x in o["counters"].items():
                    if k.startswith("max:"):
                        merged["counters"][k] = max(merged["counters"].get(k, 0), x)
                    else:
                        merged["counters"][k] = merged["counters"].get(k, 0) + x
                for k, x in o["per_family"].items():
                    merged["per_family"][k] = merged["per_family"].get(k, 0) + x
                continue
            # the process died (crash, sanitizer report) or hung: the case it was running is the witness
            txt = open(r["lg"], "rb").read().decode("utf8", "replace")
            case, what = "", ""
            if os.path.exists(r["cf"]):
                raw = open(r["cf"], "rb").read()
                case, what = (x.split(b"\0")[0].decode("utf8", "replace") for x in (raw[:128], raw[128:] + b"\0"))
            if rc == 97 or (isinstance(rc, int) and rc > 0 and "HV-SETUP" in txt):
                errs.append(txt[-2000:])
                continue
            fam, cs = (case.split() + ["?", "0"])[:2]
            if isinstance(rc, int) and rc > 0 and rc != 99 and "SUMMARY: " not in txt and "runtime error" not in txt:
                # an ordinary failure of the harness itself (not a signal, not a sanitizer)
                if "memory allocation of" not in txt:
                    errs.append("rc=%s case=%s\n%s" % (rc, case, txt[-2000:]))
                    continue
            sig = crash_sig(txt, rc)
            at_exit = " (at exit)" if "byte(s) leaked" in txt else ""
            op = "" if at_exit else " " + (what.split() or [""])[0]
            merged["violations"].append({"family": fam, "sig": "%s%s: %s" % (fam, op, sig), "msg": "%s :: process ended abnormally (%s)%s while running this case\n%s" % (what[:1000], rc, at_exit, txt[-3000:]), "case": cs, "group": r["g"], "flavour": flavour})
    if errs and not any(v["sig"] not in listed for v in merged["violations"]):
        for e in errs[:3]:
            log("HARNESS ERROR:", e)
        sys.exit(2)
    return merged


def crash_sig(txt, rc):
    if "byte(s) leaked" in txt:
        m = re.search(r"(?:Direct|Indirect) leak.*?\n(?:\s+#\d+ \S+ in (?:malloc|calloc|realloc|aligned_alloc|posix_memalign)[^\n]*\n)+\s+#\d+ \S+ in (\w+)", txt)
        return "LeakSanitizer leak in %s" % (m.group(1) if m else "?")
    if "WARNING: ThreadSanitizer" in txt:
        f = [x for x in re.findall(r"#\d+ (.*?) (?:/\S*)?/(?:repo|crates)/(\S+?):\d+", txt)] or [x for x in re.findall(r"#\d+ (.*?) (\S+?):\d+", txt) if "/library/" not in x[1]]
        k = re.search(r"WARNING: ThreadSanitizer: ([\w ()-]+?) \(pid", txt)
        return "ThreadSanitizer %s in %s" % (k.group(1) if k else "report", f[0][1] if f else "?")
    m = re.search(r"SUMMARY: (\w+): ([\w-]+) (?:\S*/)?([\w.]+:\d+)?.*? in (\w+)", txt)
    if m:
        return "%s %s in %s" % (m.group(1), m.group(2), m.group(4))
    m = re.search(r"(\w+\.[ch]):\d+:\d+: runtime error: (.*)", txt)
    if m:
        return "UBSan %s %s" % (m.group(1), re.sub(r"-?\d+", "N", m.group(2))[:80])
    m = re.search(r"SUMMARY: (.*)", txt)
    if m:
        return re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:100]
    if rc == "timeout":
        return "hang"
    m = re.search(r"==\d+== ((?:Conditional|Use of|Invalid|Syscall|Source and|Argument|Mismatched)[^\n]*)\n((?:==\d+==[^\n]*\n)+)", txt)
    if m:
        f = re.search(r"(?:at|by) 0x[0-9A-F]+: ((?:hodu|conv|mat|red)[\w:]+)", m.group(2)) or re.search(r"(?:at|by) 0x[0-9A-F]+: ([\w:]+)", m.group(2))
        return "Memcheck %s in %s" % (re.sub(r"\d+", "N", m.group(1))[:60], f.group(1) if f else "?")
    if isinstance(rc, int) and rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            pass
    return "abnormal exit %s" % rc


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    listed = {k["sig"] for k in known(prop)}
    work = tempfile.mkdtemp(prefix="hv-%s-" % prop, dir=os.environ.get("HV_TMP", "/tmp"))
    try:
        stages = []
        for st in spec["stages"]:
            if st.get("only") and st["only"] != tier:
                continue
            need = FLAVOURS[st.get("flavour", "plain")].get("cpu")
            if need and need not in open("/proc/cpuinfo").read():
                continue
            stages.append((st, run_stage(prop, st, seed, tier, work)))
            if tier != "thorough" and any(v["sig"] not in listed for v in stages[-1][1]["violations"]):
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = {k["sig"]: k for k in known(prop)}
    seen_known, fresh = {}, []
    for _, m in stages:
        for v in m["violations"]:
            if v["sig"] in kn:
                seen_known.setdefault(v["sig"], v)
            else:
                fresh.append(v)
    evals = sum(m["evals"] for _, m in stages)
    distinct = sum(len(m["hashes"]) for _, m in stages)
    samples, per, counters = [], {}, {}
    for st, m in stages:
        fl = st.get("flavour", "plain")
        per[fl] = per.get(fl, {})
        for k, x in m["per_family"].items():
            per[fl][k] = per[fl].get(k, 0) + x
        for k, x in m["counters"].items():
            if not k.startswith("sig:"):
                counters[fl + "/" + k] = counters.get(fl + "/" + k, 0) + x
        seen = set()
        for s in m["samples"]:
            f = s.split(":")[0]
            if f not in seen and len(samples) < 40:
                seen.add(f)
                samples.append(s)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples,
                       "per_family": per, "observed": counters, "skipped": sum(m["skipped"] for _, m in stages),
                       "time_capped": any(m["truncated"] for _, m in stages)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in sorted(kn):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[s]["what"]))
    log("%s: %d evaluations, %d distinct, %d violations, %.1fs%s" % (prop, evals, distinct, len(fresh), time.time() - t0, " (time capped)" if ev["coverage"]["time_capped"] else ""))
    if evals == 0 and not fresh:
        log("no case was evaluated: the check decided nothing")
        sys.exit(2)
    if fresh:
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        bysig = {}
        for v in fresh:
            bysig.setdefault(v["sig"], v)
        for i, (s, v) in enumerate(sorted(bysig.items())[:20]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "flavour": v["flavour"], "group": v["group"], "family": v["family"], "case": v["case"], "tier": tier, "sig": s, "message": v["msg"],
                           "how": "python3 %s/run.py replay %s" % (ROOT, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s" % (s, v["msg"][:700].replace("\n", "\n    ")))
        sys.exit(1)
    sys.exit(0)


def replay(path):
    r = json.load(open(path))
    binp = build(r["flavour"])
    env = base_env()
    env.update(FLAVOURS[r["flavour"]].get("run_env", {}))
    d = tempfile.mkdtemp(prefix="hv-replay-")
    try:
        env["TMPDIR"] = d
        rc = subprocess.run([binp, "replay", r["group"], r["family"], str(r["case"]), "--tier", r.get("tier", "quick")], env=env, cwd=d).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(1 if rc else 0)


if __name__ == "__main__":
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    if cmd == "setup":
        used = []
        for c in CHECKS.values():
            for s in c["stages"]:
                if s.get("only") != "thorough" and s.get("flavour", "plain") not in used:
                    used.append(s.get("flavour", "plain"))
        for u in used:
            build(u)
    elif cmd == "check":
        check(sys.argv[2])
    elif cmd == "replay":
        replay(sys.argv[2])
    else:
        print(__doc__)
        sys.exit(2)
