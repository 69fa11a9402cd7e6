#!/usr/bin/env python3
"""Builds and runs one check.

  run.py <property id> [--tier quick|thorough]   run a check, write its evidence
  run.py --replay <file>                         re-run one recorded execution
  run.py --build <flavour>|all                   only build (used for timing)

Every run rebuilds what it needs from /repo's working tree (ninja, with header
dependencies), so a change there is always seen.
"""
import argparse, fcntl, glob, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS

# The files that need the (absent) function2 submodule; see include/function2.
ASYNC_CPP = {"address_resolver", "awaitable", "channel", "connection", "context", "executor", "file",
             "flag", "future", "mutex", "pipe", "socket", "wait"}

def repo_sources(kind):
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        if kind == "sync" and os.path.basename(f)[:-4] in ASYNC_CPP: continue
        r.append(f)
    return r

def esc(s): return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def write_ninja(bdir, flavour, check):
    fl = FLAVOURS[flavour]
    lines = ["ninja_required_version = 1.5",
             "rule cxx\n  command = %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (fl["cxx"], fl["flags"].format(verif=VERIF, repo=REPO)),
             "rule rt\n  command = %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (fl["cxx"], fl["rtflags"].format(verif=VERIF, repo=REPO)),
             "rule link\n  command = %s -o $out $in %s" % (fl["cxx"], fl["link"])]
    objs = []
    libs = []
    if fl.get("rtlib"):
        lines.append("rule so\n  command = %s -shared -o $out $in -ldl -lpthread" % fl["cxx"])
        for f in fl["rtlib"]:
            o = "rt_" + os.path.basename(f) + ".o"
            lines.append("build %s: rt %s" % (esc(o), esc(os.path.join(VERIF, f)))); libs.append(o)
        lines.append("build libmcrt.so: so %s" % " ".join(map(esc, libs)))
    for f in repo_sources(check.get("repo", fl["repo"])):
        o = "repo_" + os.path.relpath(f, REPO).replace("/", "_") + ".o"
        lines.append("build %s: cxx %s" % (esc(o), esc(f))); objs.append(o)
    for f in check["sources"]:
        o = "h_" + os.path.basename(f) + ".o"
        lines.append("build %s: cxx %s\n  extra = %s" % (esc(o), esc(os.path.join(VERIF, f)), check.get("cflags", ""))); objs.append(o)
    for f in fl["runtime"]:
        o = "rt_" + os.path.basename(f) + ".o"
        lines.append("build %s: rt %s" % (esc(o), esc(os.path.join(VERIF, f)))); objs.append(o)
    exe = "check_" + check["exe"]
    lines.append("build %s: link %s" % (exe, " ".join(map(esc, objs + (["libmcrt.so"] if libs else [])))))
    nf = "build_%s.ninja" % check["exe"]
    txt = "\n".join(lines) + "\n"
    p = os.path.join(bdir, nf)
    if not os.path.exists(p) or open(p).read() != txt: open(p, "w").write(txt)
    return nf, os.path.join(bdir, exe)

def build(check):
    bdir = os.path.join(BUILD, check["flavour"])
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nf, exe = write_ninja(bdir, check["flavour"], check)
        r = subprocess.run(["ninja", "--quiet", "-C", bdir, "-f", nf, "-j", "8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("\n".join([l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l][:12])); print("BUILD FAILED for", check["exe"]); sys.exit(2)
    return exe

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def env_for(check):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=2:quarantine_size_mb=16:" + check.get("asan", "")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    e.setdefault("LC_ALL", "C.UTF-8")
    return e

def run_check(pid, tier):
    t0 = time.time()
    check = CHECKS[pid]
    exe = build(check)
    tbuild = time.time() - t0
    wd = os.path.join(BUILD, "run", "%s-%s-%d" % (pid, tier, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, "out.json")
    known = [k for k in known_findings() if k["property"] == pid and k["status"] == "known"]
    budget = check.get("seconds", {}).get(tier, 420 if tier == "quick" else 3000)
    cmd = [exe, "--tier", tier, "--jobs", "8", "--workdir", wd, "--out", out, "--max-seconds", str(budget)]
    for k in known: cmd += ["--known", k["key"]]
    for o in check.get("only", []): cmd += ["--only", o]
    r = subprocess.run(cmd, env=env_for(check), cwd=wd)
    if r.returncode != 0:
        print("check %s: explorer error (exit %d)" % (pid, r.returncode)); shutil.rmtree(wd, ignore_errors=True); sys.exit(2)
    res = json.load(open(out))
    rep = []
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(res["violations"]):
        if not v["confirmed"]:
            print("check %s: a violation was not reproduced by its replay: %s" % (pid, v["key"])); sys.exit(2)
        if any(k["key"] == v["key"] for k in known) or any(v["key"] == x["key"] for x, _ in rep): continue
        path = os.path.join(rdir, "%s-%d.txt" % (pid, i))
        with open(path, "w") as f:
            f.write("property=%s\nscenario=%s\nbound=%d\ntier=%s\nchoices=%s\nkey=%s\n---\n%s\n--- trace\n%s\n" %
                    (pid, v["scenario"], v["bound"], tier, v["choices"], v["key"], v["msg"], v["trace"]))
        rep.append((v, path))
    hit = {k["key"]: k for k in res["known"]}
    level = check["level"]
    cov = {"evaluations": res["executions"], "distinct_nontrivial": res["nontrivial"], "rule": check["rule"],
           "samples": res["samples"][:8], "transitions": res["transitions"],
           "distinct_outcomes": res["distinct_outcomes"], "scenarios": res["scenarios"], "exhaustive": res["complete"],
           "known_findings_hit": res["known"]}
    if level == "model_checking":
        # Every trace is an execution of the implementation itself, compared step by step with the reference model.
        cov["states"] = res["distinct_states"]
        cov["traces_validated_against_impl"] = res["executions"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(rep)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(wd, ignore_errors=True)
    for k in known:
        if k["key"] in hit: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["key"]))
    if rep:
        for v, path in rep:
            print("%s: %s" % (v["key"], v["msg"].strip().splitlines()[0] if v["msg"].strip() else ""))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    print("%s %s: held on %d executions (%d transitions, %d distinct outcomes%s), build %.0fs, total %.0fs" %
          (pid, tier, res["executions"], res["transitions"], res["distinct_outcomes"], "" if res["complete"] else ", CAPPED", tbuild, time.time() - t0))

def replay(path):
    pid = next(l for l in open(path) if l.startswith("property=")).strip().split("=")[1]
    check = CHECKS[pid]; exe = build(check)
    wd = os.path.join(BUILD, "run", "replay"); os.makedirs(wd, exist_ok=True)
    r = subprocess.run([exe, "--replay", os.path.abspath(path), "--workdir", wd], env=env_for(check))
    sys.exit(r.returncode)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--build"); ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.replay: replay(a.replay)
    elif a.setup:   # every check builds for itself; this only reports what is there
        subprocess.check_call(["ninja", "--version"]); subprocess.check_call(["g++", "--version"])
    elif a.build:
        for c in sorted(CHECKS):
            if a.build in ("all", c, CHECKS[c]["flavour"]): build(CHECKS[c])
    else: run_check(a.id, a.tier)
