#!/usr/bin/env python3
"""Confirms a planted bug in scratch copies and says whether the property's check catches it.

plant.py ID [--no-check] [--tier quick|thorough]   (developer tool; no check uses it)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def build(d):
    r = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS='-O2 -g -Wno-error' -DCMAKE_PROJECT_dynamic_trajectory_generator_INCLUDE=/opt/vp/prelude.cmake"
           " -DNLopt_DIR=/usr/lib/x86_64-linux-gnu/cmake/nlopt -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DBUILD_TESTING=ON -Ddynamic_trajectory_generator_TESTS_ENABLED=ON && ninja -C _build -j8",
           shell=True, cwd=d, env=dict(os.environ, CC="gcc", CXX="g++"))
    return r
def tree(name):
    d = "/tmp/plant/" + name
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(d): subprocess.check_call(["git", "clone", "-q", "/repo", d])
    sh("git fetch -q origin && git reset -q --hard origin/HEAD", shell=True, cwd=d)
    return d
def base():
    d = tree("base"); r = build(d); assert r.returncode == 0, r.stdout[-3000:]
    return d
def demo(i, d):
    t = "/tmp/plant/demo_" + i
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(os.path.join(V, "seeded", i), t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(t, f))
    r = sh(["timeout", "300", "bash", t + "/demo.sh"], cwd=d)
    shutil.rmtree(t)
    return r
def main():
    import fcntl; os.makedirs("/tmp/plant", exist_ok=True); lock = open("/tmp/plant/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    i = sys.argv[1]
    s = os.path.join(V, "seeded", i); meta = json.load(open(s + "/meta.json"))
    b = base()
    r = demo(i, b)
    print(i, meta["property"], "demo on base:", r.returncode, r.stdout[-800:] if r.returncode else "")
    d = tree("tree")
    r = sh(["git", "apply", s + "/patch.diff"], cwd=d)
    if r.returncode: print("DOES NOT APPLY", r.stdout); return
    r = build(d)
    if r.returncode: print("DOES NOT BUILD", r.stdout[-3000:]); return
    r = sh("ctest --test-dir _build --timeout 300", shell=True, cwd=d)
    print("tests:", r.returncode, "" if r.returncode == 0 else r.stdout[-600:])
    for k in range(2):
        r = demo(i, d)
        print("demo with bug:", r.returncode, r.stdout[-300:])
    if "--no-check" not in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else "quick"
        r = sh([sys.executable, V + "/run.py", meta["property"], tier], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/plant/cb", VERIF_EVID="/tmp/plant/ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        print("check:", r.returncode, "".join(l + "\n" for l in r.stdout.splitlines() if not l.startswith("worker"))[-1000:])
main()
