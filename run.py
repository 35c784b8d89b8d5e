#!/usr/bin/env python3
"""Builds and runs one property check: run.py <property> [quick|thorough] | run.py replay <file>

Exit 0: held on everything explored; exit 1 with a VIOLATION line: a confirmed, shrunk failing case.
"""
import fcntl, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

FLAVOURS = {
    # plain: fast, assertions on.
    "plain": dict(cxx="clang++", flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS", link=""),
    "asan": dict(cxx="clang++", flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-omit-frame-pointer",
                 link="-fsanitize=address"),
    "fuzz": dict(cxx="clang++", flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,fuzzer-no-link -fno-omit-frame-pointer",
                 link="-fsanitize=address -Wl,--whole-archive FUZZLIB -Wl,--no-whole-archive -lstdc++"),
    # Race detector; every edge of the dynamic layer may be a place where a thread is held up.
    "tsan": dict(cxx="clang++", flags="-O2 -g1 -fsanitize=thread -fno-omit-frame-pointer -fsanitize-coverage=edge,trace-pc-guard"
                 " -fsanitize-coverage-ignorelist=" + os.path.join(VERIF, "sched", "sancov.ignore"),
                 link="-fsanitize=thread -Wl,--wrap=nanosleep", dynamic="-include;" + os.path.join(VERIF, "harness", "tsan_prelude.hpp")),
    # Deterministic scheduler (sched/): every edge and memory access of the dynamic layer may be a preemption point.
    "sched": dict(cxx="clang++", flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-omit-frame-pointer -DVERIF_SCHED"
                  " -fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores -fsanitize-coverage-ignorelist="
                  + os.path.join(VERIF, "sched", "sancov.ignore"), link="-fsanitize=address -rdynamic"),
    "schedfast": dict(cxx="clang++", flags="-O2 -g1 -D_GLIBCXX_ASSERTIONS -DVERIF_SCHED", link="-rdynamic"),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="max_malloc_fill_size=1048576:malloc_fill_byte=190:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1",
           TSAN_OPTIONS="halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:report_thread_leaks=0:die_after_fork=0",
           LC_ALL="C")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print(r.stdout[-6000:])
        print("BUILD FAILED:", " ".join(cmd))
        sys.exit(2)
    return r.stdout


def build(check):
    """Builds the repository's libraries (from its own CMake files) and the harness; returns the binary."""
    fl = FLAVOURS[check["flavour"]]
    bd = os.path.join(BUILD, check["flavour"])
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(bd, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cxx, flags = fl["cxx"], fl["flags"] + " -w"
    lib = os.path.join(bd, "lib")
    sh(["cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + cxx.replace("++", ""),
        "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_FLAGS=" + flags,
        "-DCMAKE_PROJECT_dynamic_trajectory_generator_INCLUDE=" + os.path.join(VERIF, "cmake", "prelude.cmake"),
        "-DNLopt_DIR=/usr/lib/x86_64-linux-gnu/cmake/nlopt", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DVERIF_DYNAMIC_OPTIONS=" + fl.get("dynamic", "")])
    targets = ["mav_trajectory_generation"] + (["dynamic_trajectory_generator"] if check.get("dynamic") else [])
    inc = ["-I" + os.path.join(REPO, p) for p in (
        "include", "include/dynamic_trajectory_generator", "subpackages/mav_trajectory_generation/include",
        "subpackages/mav_trajectory_generation/include/mav_trajectory_generation",
        "subpackages/mav_trajectory_generation/include/mav_msgs")] + ["-I" + os.path.join(VERIF, "pbt"), "-I" + os.path.join(VERIF, "sched"), "-I/usr/include/eigen3"]
    procs = []
    objs = []
    srcs = [check["harness"]] + check.get("extra", []) + ["pbt/pbt.cpp"]
    if check["flavour"].startswith("sched"):
        srcs.append("sched/detsched.cpp")
    hdir = os.path.join(bd, "obj")
    os.makedirs(hdir, exist_ok=True)
    lp = subprocess.Popen(["ninja", "-C", lib] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for s in srcs:
        tag = ("_" + check["id"]) if s == check["harness"] and check.get("defs") else ""
        o = os.path.join(hdir, s.replace("/", "_") + tag + ".o")
        objs.append(o)
        f = flags if not (s.startswith(("pbt/", "sched/")) or s in check.get("uninstrumented", [])) else (
            "-O2 -g1" + (" -fno-threadsafe-statics" if s.startswith("sched/") else " -fsanitize=address" if "address" in flags else "") + (" -fsanitize=thread" if check["flavour"] == "tsan" else "") + " -w")
        procs.append((s, subprocess.Popen([cxx, "-std=c++17", "-fPIC", *f.split(), *inc, *check.get("defs", []), "-c",
                                           os.path.join(VERIF, s), "-o", o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    out = lp.communicate()[0]
    bad = lp.returncode != 0
    if bad:
        print(out[-6000:])
    for s, p in procs:
        o = p.communicate()[0]
        if p.returncode:
            bad = True
            print(s, o[-6000:])
    if bad:
        print("BUILD FAILED")
        sys.exit(2)
    libs = ([os.path.join(lib, "libdynamic_trajectory_generator.a")] if check.get("dynamic") else []) + [
        os.path.join(lib, "subpackages/mav_trajectory_generation/libmav_trajectory_generation.a")]
    exe = os.path.join(bd, check["id"])
    if "FUZZLIB" in fl["link"]:
        rd = sh([cxx, "-print-runtime-dir"]).strip()
        cands = [os.path.join(rd, n) for n in ("libclang_rt.fuzzer_no_main-x86_64.a", "libclang_rt.fuzzer_no_main.a")]
        cands += [os.path.join(sh([cxx, "-print-resource-dir"]).strip(), "lib", "linux", "libclang_rt.fuzzer_no_main-x86_64.a")]
        fl = dict(fl, link=fl["link"].replace("FUZZLIB", [c for c in cands if os.path.exists(c)][0]))
    sh([cxx, *objs, *libs, *fl["link"].split(), "-o", exe, "-lglog", "-lnlopt", "-lyaml-cpp", "-lpthread", "-ldl"])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


START_SIGNALS = (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGFPE)


def starts_dying(exe, env):
    """Whether the harness is ended by a signal before it reaches main, three times out of three."""
    return all(subprocess.run([exe, "start"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL).returncode in START_SIGNALS for _ in range(3))


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get("property") == pid and k.get("status") == "known":
                out.append(k)
    return out


def run_check(pid, tier):
    check = dict(CHECKS[pid], id=pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe = build(check)
    t_build = time.time() - t0
    cfg = check[tier]
    jobs = check.get("jobs", 8)
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix="pbt_%s_" % pid)
    env = dict(ENV, PBT_TIER=tier, PBT_WORK=work)
    known = known_findings(pid)
    if known:
        env["PBT_KNOWN"] = ",".join(k["key"] for k in known)
    procs = []
    try:
        for w in range(jobs):
            procs.append(subprocess.Popen([exe, "run", "--seed", str(seed), "--worker", str(w), "--cases", str(cfg["cases"]),
                                           "--seconds", str(cfg["seconds"]), "--out", work, "--property", pid],
                                          env=env, stdin=subprocess.DEVNULL, start_new_session=True))
        failed = None
        live = dict(enumerate(procs))
        rcs = {}
        while live:
            for w, p in list(live.items()):
                rc = p.poll()
                if rc is not None:
                    del live[w]
                    rcs[w] = rc
                    if rc == 1 and failed is None:
                        failed = w
            if failed is not None:
                break
            time.sleep(0.05)
        for p in live.values():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for p in procs:
            p.wait()
        # Merge statistics.
        agg = dict(evaluations=0, discards=0, nontrivial=0)
        labels, metrics, samples, hashes, ends = {}, {}, [], set(), {}
        for w in range(jobs):
            try:
                s = json.load(open(os.path.join(work, "w%d.json" % w)))
            except Exception:
                continue
            ends[s.get("end", "?")] = ends.get(s.get("end", "?"), 0) + 1
            for k in agg:
                agg[k] += s.get(k, 0)
            for k, v in s.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + v
            for k, v in s.get("metrics", {}).items():
                v = float(v)
                metrics[k] = max(metrics.get(k, v), v)
            samples += s.get("samples", [])[:3]
            hp = os.path.join(work, "w%d.hash" % w)
            if os.path.exists(hp):
                b = open(hp, "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        extra = {}
        if check.get("post"):
            extra = check["post"](exe, work, tier, seed, env, agg) if failed is None else {}
            if extra.get("fail"):
                failed = "x"
        violations = []
        if failed is None and all(rcs.get(w) in START_SIGNALS for w in range(jobs)) and not ends and starts_dying(exe, env):
            rdir = os.path.join(BUILD, "replays")
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, "%s-%s-seed%d.json" % (pid, tier, seed))
            with open(dst, "w") as f:
                json.dump(dict(property=pid, startup=True), f)
            violations.append(dict(tag="start", message="a program linked with the library is ended by signal %d before main: "
                                   "the library's static initialisation fails" % -rcs[0], case="start", replay=dst))
            rcs = {}
        if failed is not None:
            rdir = os.path.join(BUILD, "replays")
            os.makedirs(rdir, exist_ok=True)
            src = extra["fail"] if failed == "x" else os.path.join(work, "fail%d.json" % failed)
            dst = os.path.join(rdir, "%s-%s-seed%d.json" % (pid, tier, seed))
            shutil.copy(src, dst)
            try:
                r = json.load(open(dst))
                violations.append(dict(tag=r["tag"], message=r["message"][:2000], case=r["case"][:4000], replay=dst))
            except Exception:
                violations.append(dict(replay=dst))
        unconfirmed = [w for w, rc in rcs.items() if rc == 4]
        broken = [w for w, rc in rcs.items() if rc not in (0, 1, 4)]
        wall = time.time() - t0
        cov = dict(evaluations=int(agg["evaluations"] + extra.get("evaluations", 0)),
                   distinct_nontrivial=len(hashes) + int(extra.get("nontrivial", 0)), rule=check["rule"], samples=samples[:12] or ["none"])
        cov.update(nontrivial=agg["nontrivial"], discarded=agg["discards"], labels=dict(sorted(labels.items())),
                   worst_margins={k: (v if v == v and abs(v) != float("inf") else str(v)) for k, v in sorted(metrics.items())},
                   workers=ends, build_s=round(t_build, 1))
        if extra.get("info"):
            cov["coverage_guided"] = extra["info"]
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
                  violations=len(violations), assumptions=check.get("assumptions", []) + (
                      ["%d worker(s) stopped at a failure that did not replay three times; not counted" % len(unconfirmed)] if unconfirmed else []))
        if violations:
            cov["violations"] = violations
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" % (
            pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall, t_build,
            ", unconfirmed in workers %s" % unconfirmed if unconfirmed else ""))
        if os.environ.get("PBT_VERBOSE"):
            print(json.dumps(dict(labels=cov["labels"], margins=cov["worst_margins"], ends=ends), indent=1))
        if violations:
            v = violations[0]
            print("  tag: %s\n  %s\n  case: %s" % (v.get("tag"), v.get("message", "")[:1500], v.get("case", "")[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, violations[0]["replay"]))
            return 1
        if broken or len(unconfirmed) == jobs:
            print("CHECK BROKEN: workers", {w: rcs[w] for w in broken}, "unconfirmed", unconfirmed)
            return 2
        return 0
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        if os.environ.get("PBT_KEEP"):
            print("work dir", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    check = dict(CHECKS[r["property"]], id=r["property"])
    exe = build(check)
    work = tempfile.mkdtemp(prefix="pbt_replay_")
    try:
        if r.get("startup"):
            return 1 if starts_dying(exe, dict(ENV, PBT_WORK=work)) else 0
        if r.get("fuzz_input_hex") is not None:
            f = os.path.join(work, "input")
            open(f, "wb").write(bytes.fromhex(r["fuzz_input_hex"]))
            return 1 if subprocess.run([exe, "fuzz", f], env=dict(ENV, PBT_WORK=work)).returncode else 0
        rc = subprocess.run([exe, "replay", "--file", path, "--out", work], env=dict(ENV, PBT_WORK=work)).returncode
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(pid, tier))


if __name__ == "__main__":
    main()
