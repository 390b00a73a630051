#!/usr/bin/env python3
"""Builds and runs the check of one property:  run.py C01   (VERIF_SEED, VERIF_TIER=quick|thorough)

  run.py C01 --replay FILE   replays a saved failure against the current tree
  run.py --setup             checks that the toolchain the checks need is there
  run.py --all [IDS...]      development helper: runs several checks and prints one line each
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HART_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks.config import CHECKS, RULES, ASSUMPTIONS  # noqa: E402

WORKERS = 8
SHM = "/dev/shm/hart-pbt-%d" % os.getpid()  # scratch files on a file system without a practical limit of file sizes
INCLUDES = ["-I" + VERIF + "/engine", "-isystem", REPO + "/dependencies/CLI11", "-isystem", REPO + "/dependencies/dr_libs",
            "-isystem", REPO + "/dependencies", "-I" + REPO + "/include"]
SAN = ["-fsanitize=address,null,bounds,signed-integer-overflow,shift,integer-divide-by-zero,return",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-std=c++17", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-pthread"]
ASAN_OPTIONS = ("abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:hard_rss_limit_mb=3000:"
                "max_malloc_fill_size=268435456:symbolize=1:detect_stack_use_after_return=1:handle_abort=1:print_legend=0")
UBSAN_OPTIONS = "print_stacktrace=1:halt_on_error=1"


def log(*a):
    print(*a, flush=True)


def make_shm():
    try:
        os.makedirs(SHM)
    except OSError:
        pass  # the checks then use their usual scratch directory


def env(part, exe=None):
    e = dict(os.environ)
    if exe and "program" in part:
        e["HV_PROGRAMS"] = exe + ".prog0:" + exe + ".prog1"
    e["ASAN_OPTIONS"] = ASAN_OPTIONS + (":" + part["asan"] if "asan" in part else "")  # the last setting of an option wins
    e["UBSAN_OPTIONS"] = UBSAN_OPTIONS
    e["PBT_SHM"] = SHM
    return e


class BuildError(Exception):
    pass


def errors_of(out):
    lines = out.decode(errors="replace").splitlines()
    picked = [x for x in lines if "error" in x]
    return "\n".join(x[:300] for x in (picked or lines)[:12])


def compile_part(part, build, tag):
    """Starts the compilations of one part; returns the processes and the link command."""
    opt = part.get("opt", "-O0")
    extra = part.get("flags", [])
    src = os.path.join(VERIF, "checks", part["src"])
    obj, impl, exe = (os.path.join(build, tag + x) for x in (".o", ".impl.o", ".exe"))
    procs = []
    cmds = [["g++", *COMMON, opt, *SAN, *extra, *INCLUDES, "-c", src, "-o", obj],
            ["g++", *COMMON, "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", *extra, *INCLUDES, "-c", VERIF + "/engine/impl.cpp", "-o", impl]]
    for c in cmds:
        procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    links = [["g++", *SAN, "-pthread", obj, impl, "-o", exe]]
    for k, (f, flags) in enumerate(part.get("extra", [])):  # further source files of the check, with flags of their own
        o = os.path.join(build, "%s.extra%d.o" % (tag, k))
        c = ["g++", *COMMON, opt, *SAN, *flags, *INCLUDES, "-c", os.path.join(VERIF, "checks", f), "-o", o]
        procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        links[0].insert(-2, o)
    if "program" in part:  # a program of several source files which the check runs; built and linked in two ways
        for n, o in enumerate(("-O0", "-O2")):
            objs = []
            for k, f in enumerate(part["program"]):
                objs.append(os.path.join(build, "%s.prog%d-%d.o" % (tag, n, k)))
                c = ["g++", *COMMON, o, *INCLUDES, "-c", os.path.join(VERIF, "checks", f), "-o", objs[-1]]
                procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            links.append(["g++", "-pthread", *(objs if n == 0 else objs[::-1]), "-o", exe + ".prog%d" % n])
    return procs, links, exe


def finish_build(procs, links):
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError(" ".join(c[-3:]) + "\n" + errors_of(out))
    for link in links:
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode(errors="replace")[-6000:])


def build_fuzzer(part, build, tag):
    src = os.path.join(VERIF, "checks", part["src"])
    exe = os.path.join(build, tag + ".fuzz")
    san = ["-fsanitize=fuzzer,address", "-fno-omit-frame-pointer"]
    # The implementation part of the library is instrumented as well, so that its branches guide the search
    cmd = ["clang++", "-std=c++17", "-g1", "-O1", "-w", "-DPBT_FUZZ", "-ftrivial-auto-var-init=pattern", *san, *part.get("flags", []),
           *INCLUDES, src, VERIF + "/engine/impl.cpp", "-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(errors_of(r.stdout))
    return exe


def run_fuzzer(pid, part, exe, engine_exe, build, seed, seconds, replay_out):
    """Coverage-guided search over the same property; returns (executions, message or None)."""
    root = os.path.join(build, "fuzz-" + os.path.basename(exe))
    os.makedirs(root, exist_ok=True)
    procs = []
    for w in range(WORKERS):
        d = os.path.join(root, "w%d" % w)
        os.makedirs(os.path.join(d, "corpus"), exist_ok=True)
        e = env(part)
        e["PBT_FUZZ_DIR"] = d
        cmd = [exe, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % part.get("max_len", 4096), "-len_control=20",
               "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + d + "/", d + "/corpus"]
        procs.append((d, subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=open(d + "/log", "wb"))))
    executions = 0
    message = None
    for d, p in procs:
        try:
            p.wait(timeout=seconds + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        text = open(d + "/log", "rb").read().decode(errors="replace")
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                executions += int(line.split(":")[-1])
        for f in sorted(os.listdir(d)):
            if f.startswith(("crash-", "oom-", "timeout-")) and message is None:
                r = subprocess.run([engine_exe, "--bytes", os.path.join(d, f), "--dir", build, "--replay-out", replay_out, "--seed", str(seed)],
                                   env=env(part), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 1:
                    message = r.stdout.decode(errors="replace")
                else:
                    log("note: %s: a libFuzzer artifact did not reproduce in the engine build: %s" % (pid, f))
    return executions, message


def tree_id():
    h = hashlib.sha256()
    for base, dirs, files in sorted(x for d in ("include", "dependencies") for x in os.walk(REPO + "/" + d)):
        for f in sorted(files):
            h.update(open(os.path.join(base, f), "rb").read())
    return h.hexdigest()[:12]


def check(pid, quiet=False):
    start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    parts = CHECKS[pid]
    build = os.path.join(VERIF, "build", "%s-%d" % (pid, os.getpid()))
    os.makedirs(build)
    make_shm()
    os.makedirs(VERIF + "/replays", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    known = json.load(open(VERIF + "/known_findings.json")) if os.path.exists(VERIF + "/known_findings.json") else {"findings": []}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[pid], "samples": [], "discarded": 0, "classes": {}, "parts": []}
    violations = []
    try:
        compiled = []
        for i, part in enumerate(parts):
            compiled.append(compile_part(part, build, "p%d" % i))
        for procs, link, exe in compiled:
            finish_build(procs, link)
        built = time.time() - start

        for i, part in enumerate(parts):
            exe = compiled[i][2]
            d = os.path.join(build, "run%d" % i)
            os.makedirs(d)
            out = os.path.join(d, "result.json")
            replay = os.path.join(VERIF, "replays", "%s-%s-p%d-s%d.json" % (pid, tree_id(), i, seed))
            cases = part["thorough"] if tier == "thorough" else part["quick"]
            wall = part.get("wall", {}).get(tier, 380 if tier == "quick" else 3000) / len(parts)
            r = subprocess.run([exe, "--seed", str(seed), "--cases", str(cases), "--workers", str(WORKERS), "--wall", str(wall),
                                "--dir", d, "--out", out, "--replay-out", replay], env=env(part, exe), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                raise BuildError("engine failed (%d): %s" % (r.returncode, r.stdout.decode(errors="replace")[-3000:]))
            res = json.load(open(out))
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] += res["distinct_nontrivial"]
            cov["discarded"] += res["discards"]
            cov["samples"] += res["samples"][:3]
            for k, v in res["labels"].items():
                cov["classes"][k] = cov["classes"].get(k, 0) + v
            info = {"source": part["src"], "what": part.get("what", ""), "requested": res["requested"], "evaluations": res["evaluations"],
                    "search_wall_s": round(res["wall"], 1), "cut_short": res["timed_out"], "unreproduced": res["unreproduced"]}
            if res["unreproduced"]:
                info["unreproduced_message"] = res["unreproduced_msg"]
            cov["parts"].append(info)
            if res["violated"]:
                violations.append((replay, res["message"], res["case"]))
                break

            if tier == "thorough" and part.get("fuzz", True):
                fexe = build_fuzzer(part, build, "p%d" % i)
                execs, msg = run_fuzzer(pid, part, fexe, exe, d, seed, part.get("fuzz_seconds", 150), replay)
                cov["evaluations"] += execs
                info["coverage_guided_executions"] = execs
                if msg:
                    violations.append((replay, msg, ""))
                    break

        cov["build_wall_s"] = round(built, 1)
        if not cov["samples"]:
            cov["samples"] = ["(the run ended before a non-trivial case was sampled)"]
        evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                    "assumptions": ASSUMPTIONS.get(pid, []) + ASSUMPTIONS["*"], "wall_s": round(time.time() - start, 1), "violations": len(violations)}
        with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    finally:
        shutil.rmtree(build, ignore_errors=True)
        shutil.rmtree(SHM, ignore_errors=True)
        try:
            os.rmdir(VERIF + "/build")
        except OSError:
            pass

    for k in known["findings"]:
        if k["property"] == pid and k.get("status") == "known":
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    if violations:
        for replay, msg, case in violations:
            if not quiet:
                log("--- what fails\n%s\n--- minimal case\n%s" % (msg, case))
            log("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1, evidence, violations
    if not quiet:
        log("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - start))
    return 0, evidence, []


def replay(pid, path):
    data = json.load(open(path))
    index = int(os.path.basename(path).split("-p")[1].split("-")[0]) if "-p" in os.path.basename(path) else 0
    build = os.path.join(VERIF, "build", "%s-replay-%d" % (pid, os.getpid()))
    os.makedirs(build)
    make_shm()
    try:
        part = CHECKS[pid][index]
        procs, link, exe = compile_part(part, build, "p")
        finish_build(procs, link)
        r = subprocess.run([exe, "--replay", path, "--dir", build], env=env(part, exe))
        if r.returncode == 1:
            log("VIOLATION property=%s replay=%s" % (data.get("property", pid), path))
        return 1 if r.returncode == 1 else 0
    finally:
        shutil.rmtree(build, ignore_errors=True)
        shutil.rmtree(SHM, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for tool in (["g++", "--version"], ["clang++", "--version"]):
            subprocess.run(tool, check=True, stdout=subprocess.DEVNULL)
        log("setup: toolchain present; checks build themselves from " + REPO)
        return 0
    if a and a[0] == "--all":
        bad = 0
        for pid in a[1:] or sorted(CHECKS):
            try:
                rc, ev, v = check(pid, quiet=True)
                c = ev["coverage"]
                log("%s rc=%d eval=%d nontrivial=%d build=%.0fs wall=%.0fs %s" % (pid, rc, c["evaluations"], c["distinct_nontrivial"], c["build_wall_s"], ev["wall_s"],
                    " ".join("%s:%.0fs" % (p["source"], p["search_wall_s"]) + ("(cut)" if p["cut_short"] else "") + (" UNREPRODUCED %d" % p["unreproduced"] if p["unreproduced"] else "") for p in c["parts"])))
                for _, m, case in v:
                    log("    " + m[:700].replace("\n", "\n    "))
                    log("    case: " + case[:900].replace("\n", "\n    "))
                bad |= rc
            except BuildError as e:
                log("%s BUILD ERROR %s" % (pid, str(e)[-3000:]))
                bad = 2
        return bad
    pid = a[0]
    if len(a) == 3 and a[1] == "--replay":
        return replay(pid, a[2])
    try:
        return check(pid)[0]
    except BuildError as e:
        log("error: " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
