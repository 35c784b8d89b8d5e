"""Configuration of the checks: harness, build flavour, sizes, description."""

import json
import os
import re
import subprocess

CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, harness, flavour, quick, thorough, rule, assumptions=(), **kw):
    CHECKS[pid] = dict(harness=harness, flavour=flavour, quick=dict(zip(("cases", "seconds"), quick)),
                       thorough=dict(zip(("cases", "seconds"), thorough)), rule=rule, assumptions=list(assumptions), **kw)


def coverage_guided(exe, work, tier, seed, env, agg):
    """libFuzzer over the same generators (its bytes are the choices), after the random run; 8 processes."""
    secs = 15 if tier == "quick" else 500
    jobs = []
    for w in range(8):
        d = os.path.join(work, "fuzz%d" % w)
        os.makedirs(os.path.join(d, "corpus"))
        r = __import__("random").Random(seed * 100 + w)
        for i in range(20):
            open(os.path.join(d, "corpus", "s%d" % i), "wb").write(bytes(r.randrange(256) for _ in range(r.randrange(20, 300))))
        log = open(os.path.join(d, "log"), "w")
        jobs.append((d, subprocess.Popen([exe, "fuzz", "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=600", "-timeout=60",
                                          "-rss_limit_mb=3000", "-artifact_prefix=%s/" % d, "-print_final_stats=1", os.path.join(d, "corpus")],
                                         stdout=log, stderr=log, env=dict(env, PBT_WORK=d))))
    out = dict(evaluations=0, info={})
    cov = 0
    for d, p in jobs:
        p.wait()
        t = open(os.path.join(d, "log"), errors="replace").read()
        m = re.search(r"number_of_executed_units:\s*(\d+)", t)
        out["evaluations"] += int(m.group(1)) if m else 0
        for m in re.findall(r"cov: (\d+)", t):
            cov = max(cov, int(m))
        art = [f for f in os.listdir(d) if f.startswith("crash-") or f.startswith("timeout-") or f.startswith("oom-")]
        if p.returncode and art and not out.get("fail"):
            f = os.path.join(d, art[0])
            again = [subprocess.run([exe, "fuzz", f], env=dict(env, PBT_WORK=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace") for _ in range(2)]
            if all(a.returncode for a in again):
                subprocess.run([exe, "fuzz", "-minimize_crash=1", "-max_total_time=20", "-exact_artifact_path=%s/min" % d, f], env=dict(env, PBT_WORK=d),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                best = os.path.join(d, "min") if os.path.exists(os.path.join(d, "min")) else f
                last = subprocess.run([exe, "fuzz", best], env=dict(env, PBT_WORK=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace").stdout
                m = re.search(r"PBT-FAIL tag=(\S+) (.*)", last)
                c = re.search(r"case: (.*)", last, re.S)
                js = os.path.join(d, "fail.json")
                json.dump(dict(property=os.path.basename(exe), tag=m.group(1) if m else "crash", message=(m.group(2) if m else last[-1500:]),
                               case=(c.group(1)[:2000] if c else "coverage-guided input"), fuzz_input_hex=open(best, "rb").read().hex()), open(js, "w"))
                out["fail"] = js
    out["info"] = dict(engine="libFuzzer", seconds=secs, executions=out["evaluations"], edges=cov)
    return out


check("C10", "harness/c10.cpp", "asan", (40000, 40), (2000000, 700),
      "Random polynomials of 1..22 coefficients (zero, integer, unit and 1e-6..1e6 magnitudes), times in +-20, every derivative; "
      "all results are compared with long-double term-by-term sums under a rounding bound. "
      "Non-trivial: at least 2 (algebra) or 3 (evaluation) coefficients and a non-zero time.")
check("C11", "harness/c11.cpp", "asan", (120000, 40), (2000000, 700),
      "Polynomials of degree 1..20 with random coefficients, trajectory-like coefficients, or prescribed real, complex, repeated and "
      "clustered roots; roots are checked by residual and by multiplying them out, extrema by dense sampling with refinement. "
      "Non-trivial: degree at least 2 (roots), an extremum strictly inside the interval (extrema), a mixed root list (selection).")
check("C12", "harness/c12.cpp", "asan", (40000, 40), (2000000, 700),
      "Random trajectories (1..6 segments, 1..4 dimensions, 1..12 coefficients, dyadic or arbitrary times, with or without continuity) "
      "and one group of operations each; all values are compared with long-double evaluation of the source segments. "
      "Non-trivial: at least 2 segments and an operation that exercises a later segment.")
check("C13", "harness/c13.cpp", "asan", (14000, 40), (600000, 700),
      "Random segments and trajectories (2..12 coefficients, 1..4 dimensions, all subsets of dimensions, derivatives below the number of "
      "coefficients, sub-intervals); extrema against dense sampling with refinement; random limits around the true maxima. "
      "Non-trivial: an extremum strictly inside (segment), maximum in a later segment (whole), limits that require scaling (limits).")
check("C20", "harness/c20.cpp", "asan", (60000, 40), (3000000, 700),
      "Waypoint lists of 2..8 points in 1..4 dimensions (zero-length and very short legs included) with and without velocity "
      "constraints; estimates against the documented formulas and metamorphic relations (locality, reversal, rigid motion, "
      "monotonicity). Non-trivial: at least 3 waypoints.")
check("C21", "harness/c21.cpp", "asan", (40000, 40), (3000000, 700),
      "Histories of 1..12 vertex operations against a map model; generator arguments over their documented range; derivative names. "
      "Non-trivial: a history with an overwrite or removal, generators with at least 2 segments or rounds.")
check("C24", "harness/c24.cpp", "asan", (12000, 40), (600000, 600),
      "Random waypoint lists, trajectories (1..6 segments, 1..12 coefficients), extrema, optimisation reports, mapping matrices and message containers; the text is "
      "parsed back (all numbers and names, in order) and compared with the object to the printed precision; containers are built in memory filled with an arbitrary "
      "byte. Non-trivial: at least two constraint values and two segments, more than two waypoints, or a fill byte other than 0 and 255.")
check("C23", "harness/c23.cpp", "asan", (25000, 40), (250000, 700),
      "Sample sequences (any sign, five accumulator types, up to three windows long) and histories of up to 30 timer operations under "
      "a virtual clock whose wall time may also step, against a list model. Non-trivial: at least 3 samples or 5 operations.")
check("C15", "harness/c15.cpp", "asan", (2500, 40), (100000, 700),
      "Random problems (N of 6..12, 1..4 segments, 1..3 dimensions, derivatives 1.., ends at rest or moving, inner derivatives free or fixed), every time-allocation "
      "method, derivative-free and gradient algorithms, soft and hard limits on orders 1..3 around the initial maxima, 1..120 iterations and several stopping "
      "criteria. Feasibility, reported times and costs, every term of the objective, limits and bounds recomputed independently; the calls to nlopt are "
      "interposed to know the best value found. Non-trivial: at least two segments, a limit, and segment times that changed.")

check("C16", "harness/c16.cpp", "asan", (2000, 40), (150000, 700),
      "Random trajectories of 1..8 segments, 1..6 dimensions, 1..12 coefficients of any finite magnitude, saved to files in a scratch "
      "directory and to document trees in every combination, reloaded twice; places that cannot be written; the sampled dump against the "
      "in-memory samples. Non-trivial: at least 2 segments and 2 coefficients, or a refused save.")
check("C17", "harness/c17.cpp", "fuzz", (4000, 25), (400000, 350),
      "Valid documents of 1..3 segments with up to two structural edits, segments that do not fit together, byte-level mutations, random "
      "bytes and special paths, through all six reading functions; then libFuzzer driving the same generators by coverage. "
      "Non-trivial: an input that is not a valid document.", post=coverage_guided)
check("C18", "harness/c18.cpp", "asan", (6000, 40), (300000, 700),
      "Random trajectories of 1..5 segments and 1..6 dimensions, times inside, at and outside the ends and vertices, ranges and intervals; "
      "each state against the trajectory's own values and a long-double rotation reference. "
      "Non-trivial: an accepted time with at least 3 coefficients, a range with at least 3 samples over 2 segments.")
check("C19", "harness/c19.cpp", "asan", (60000, 40), (3000000, 700),
      "Rotations over all axes and angles (zero, tiny, near and at half a turn, beyond), matrices that are not rotations, rates, Euler angles "
      "up to gimbal lock, rigid motions, times, rotor states; against long-double power series and component formulas. "
      "Non-trivial: a rotation other than the identity, a refused matrix, general rates.")
check("C22", "harness/c22.cpp", "asan", (25000, 40), (1500000, 700),
      "Histories of up to 16 operations (moves with any reference time, resets, times, constraints, copies, assignments, renames) on several "
      "waypoints against a model that keeps the list of pending moves in long double; bell curves of any width against finite differences. "
      "Non-trivial: a history with a move, a bell curve with positive width and more than two centimetres.", dynamic=True)
check("C01", "harness/c01.cpp", "schedfast", (700, 25), (60000, 700),
      "Vehicle positions, speeds and lists of 1..8 waypoints (repeated, nearly repeated, collinear, returning; named or not; with velocity "
      "constraints), planned under the deterministic scheduler; references at the reported times against the requested positions, and the "
      "reported list against the request. Non-trivial: at least two waypoints, or one away from the vehicle.", dynamic=True)
check("C02", "harness/c02.cpp", "schedfast", (1200, 25), (120000, 700),
      "Planned trajectories and sequences of evaluation times (far before, inside, at waypoints and ends, far after; normal, positions-only "
      "and plotting evaluations in any mix), with and without in-place moves; answers against earlier answers for the same time, the ends and "
      "each other. Non-trivial: a sequence that mixes kinds of evaluation.", dynamic=True)
check("C03", "harness/c03.cpp", "schedfast", (3500, 25), (350000, 700),
      "Planned trajectories, also after partial flight and in-place moves; position differences against an 11-node quadrature (exact for the "
      "polynomials used) of the velocity, the same for velocity and acceleration, and jumps across every waypoint and window edge. "
      "Non-trivial: an interval strictly inside a segment.", dynamic=True)
check("C04", "harness/c04.cpp", "schedfast", (2000, 25), (60000, 700),
      "Vehicle positions, speeds and lists of 1..6 waypoints (also coinciding), first plans and plans after an ended flight with another "
      "speed; densely sampled speed and acceleration against the limits plus the closed-form tolerance of the soft constraints, duration "
      "against straight-line times; plans made in flight at another speed, the durations of their legs and their speed. Every case counts as non-trivial.", dynamic=True)
check("C05", "harness/c05.cpp", "schedfast", (3000, 25), (100000, 700),
      "Plans for 1..5 waypoints, flights to a random time, 1..5 moves (existing, unknown and empty names, from microns to 40 m, on single axes), "
      "references at a grid of times, at and next to the waypoints before and after, against a model of superposed bells; batches of moves "
      "made between two looks of the planner. Non-trivial: at least one existing waypoint moved.", dynamic=True)
check("C06", "harness/c06.cpp", "schedfast", (1500, 30), (60000, 700),
      "Histories of 2..14 steps (set, append, move with and without planning, move several, vehicle position, fly in steps or at once, wait, "
      "settle; fresh, repeated, unnamed and reused waypoints), computations of 5..150 ms, random stalls at synchronisation points; the reported "
      "list after every settling against a sequential model. Non-trivial: at least two requests.", dynamic=True)
check("C07", "harness/c07.cpp", "schedfast", (1500, 30), (60000, 700),
      "Flights with 1..4 plan changes (append, set, move) at random times, computations of 5..500 ms, evaluations every 2..100 ms of virtual time, "
      "mixed with looks and plotting; step sizes against measured speeds, start and splice points of every new plan against the stored references "
      "of the old one, alignment, flag. Non-trivial: at least one plan spliced in flight.", dynamic=True)
check("C08", "harness/c08.cpp", "sched", (1500, 35), (100000, 750),
      "Scripts of 1..7 requests for 1..3 threads (append, set, move, status queries) beside an evaluating thread, and destruction after a random "
      "script; interleavings: random order of ready threads, up to 12 preemptions of 0..50 ms at any basic block, memory access or synchronisation "
      "of the dynamic layer, random stalls, computations of 0..800 ms; AddressSanitizer, deadlock and livelock detection; readers of the flag of new trajectories. "
      "Non-trivial: several requesting threads or a preemption taken; destruction with work in progress.", dynamic=True)
check("C09", "harness/c09.cpp", "tsan", (100000, 60), (1000000, 750),
      "Real threads under a happens-before race detector: scripts of 1..40 requests and status reads for 1..3 threads beside the evaluating "
      "thread of each of 1..4 generators, the planning library in 2..5 threads, the trajectory holder in 2..5 threads; threads held up at random "
      "edges of the dynamic layer, sleeps shortened by 1..100. Every case counts as non-trivial.", dynamic=True, jobs=12)
check("C14", "harness/c14.cpp", "asan", (2500, 40), (200000, 700),
      "Random problems (N of 4..12, 1..6 segments, 1..4 dimensions, every derivative, any subset of constraints, equal and unequal times, "
      "constraints of too high an order, solvers used before); feasibility, cost and optimum against an independent long-double solution, "
      "perturbations of the free derivatives, metamorphic relations, matrix identities, magnitude maxima against samples. "
      "Non-trivial: at least two segments and a free derivative.")
