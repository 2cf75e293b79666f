#!/usr/bin/env python3
"""check runner: builds from /repo, drives the generators, writes evidence, reports violations."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, hashlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import specs

VERIF = B.VERIF


def known(prop):
    out = []
    p = VERIF + "/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                e = json.loads(line)
                if e["property"] == prop:
                    out.append(e)
    return out


def child_env(work):
    e = dict(os.environ)
    e["GLIBC_TUNABLES"] = "glibc.malloc.perturb=165"
    e["ASAN_OPTIONS"] = ("exitcode=77:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=268435456:"
                         "malloc_fill_byte=90:detect_stack_use_after_return=0:symbolize=0:detect_odr_violation=0:handle_segv=1:quarantine_size_mb=16")
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:report_signal_unsafe=0:symbolize=0:die_after_fork=0:history_size=7:log_path=/dev/null"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:print_stacktrace=0"
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    e["VERIF_SCRATCH"] = work
    e["VERIF_DIR"] = VERIF
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
    prop = a.prop
    os.environ["VERIF_TIER"] = "thorough" if a.tier == "thorough" or a.replay else "quick"
    spec = specs.SPECS[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    t0 = time.time()
    try:
        return go(a, prop, spec, work, seed, t0)
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def go(a, prop, spec, work, seed, t0):
    bins = spec.build(work)                       # list of (name, exe, env)
    tb = time.time() - t0
    os.chmod(work, 0o755)
    print("%s: built %s in %.1f s" % (prop, ", ".join(b[0] for b in bins), tb))
    sys.stdout.flush()
    if a.replay:
        rc_all = 0
        for name, exe, env in bins:
            e = child_env(work); e.update(env)
            r = subprocess.run([exe, "--replay", os.path.abspath(a.replay), "--scratch", work], env=e, cwd=work)
            if r.returncode == 44:
                continue
            rc_all = max(rc_all, r.returncode)
        return rc_all
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "binaries": {}}
    rules, violation = [], None
    for k in known(prop):                         # listed findings: reproduce, report, go on
        hit = False
        for name, exe, env in bins:
            e = child_env(work); e.update(env)
            r = subprocess.run([exe, "--replay", os.path.join(VERIF, k["replay"]), "--scratch", work], env=e, cwd=work,
                               stdout=subprocess.PIPE, text=True)
            if r.returncode == 1:
                hit = True
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cap = spec.budget_thorough if a.tier == "thorough" else spec.budget_quick
    for i, (name, exe, env) in enumerate(bins):
        out = os.path.join(work, "stats-%d.json" % i)
        e = child_env(work); e.update(env)
        cmd = [exe, "--tier", a.tier, "--seed", str(seed), "--out", out, "--scratch", work, "--workers", "8",
               "--scale", a.scale, "--budget", str(cap / len(bins))]
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        txt = "\n".join(l for l in r.stdout.splitlines() if not l.startswith("VIOLATION-REPLAY"))
        if txt:
            print(txt)
        if r.returncode not in (0, 1):
            print("error: %s ended with %d" % (name, r.returncode))
            return 2
        s = json.load(open(out))
        cov["evaluations"] += s["evaluations"]
        cov["distinct_nontrivial"] += s["distinct_nontrivial"]
        if s["rule"] not in rules:
            rules.append(s["rule"])
        cov["samples"] += s["samples"][:8]
        cov["binaries"][name] = {k: s[k] for k in ("evaluations", "distinct_nontrivial", "discarded", "excluded_known", "planned", "budget_hit",
                                                    "max_case_cpu_ms", "wall_s", "arms", "labels")}
        print("%s: %s: %d cases, %d distinct non-trivial, %.1f s%s" % (prop, name, s["evaluations"], s["distinct_nontrivial"], s["wall_s"],
                                                                     " (stopped at the time budget)" if s["budget_hit"] else ""))
        sys.stdout.flush()
        if r.returncode == 1:
            os.makedirs(VERIF + "/replays", exist_ok=True)
            data = open(out + ".replay").read()
            dst = VERIF + "/replays/%s-%s.replay" % (prop, hashlib.sha256(data.encode()).hexdigest()[:10])
            with open(dst, "w") as f:
                f.write("property %s\nbinary %s\n" % (prop, name) + data)
            violation = dst
            break
    cov["rule"] = " | ".join(rules)
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/.%s.%d" % (prop, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % prop)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    print("%s: held on everything explored (%.1f s)" % (prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except B.BuildError as e:
        print("error: build failed\n%s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
