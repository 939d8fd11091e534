#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   run one property's simulation
   check.py replay FILE                  re-execute a replay file
   check.py build                        build both simulators

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check
itself could not run (e.g. /repo does not compile)."""
import json, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
WORKERS = 8

# (toy runs, real runs) per tier. A run is one seeded execution of a whole plan.
RUNS = {
    "C01": ((160, 8), (6000, 48)),
    "C02": ((200, 8), (8000, 48)),
    "C03": ((600, 8), (40000, 64)),
    "C04": ((200, 8), (8000, 48)),
    "C05": ((24, 8), (1200, 24)),
    "C06": ((200, 8), (8000, 48)),
    "C07": ((72, 8), (3000, 32)),
    "C08": ((160, 8), (5000, 40)),
    "C09": ((240, 8), (8000, 48)),
    "C10": ((300, 8), (12000, 64)),
    "C11": ((300, 8), (12000, 64)),
    "C12": ((3000, 16), (100000, 200)),
    "C13": ((600, 16), (20000, 100)),
    "C14": ((120, 8), (2000, 48)),
    "C21": ((120, 8), (3000, 32)),
    "C22": ((160, 8), (6000, 48)),
    "C23": ((160, 8), (6000, 36)),
}
# checked as a pair: a build with debug assertions and arithmetic checks runs each
# plan, and the optimised build must answer the same
PAIR = {"C23"}
# wall-clock caps (s) per flavour; only reached on a machine several times slower
CAP = {"quick": (200, 240), "thorough": (2400, 2400)}


def env():
    e = dict(os.environ)
    for d in ("/root/.cargo/bin", "/usr/local/cargo/bin", "/usr/local/bin", "/usr/bin", "/bin"):
        if d not in e.get("PATH", "").split(":"):
            e["PATH"] = e.get("PATH", "") + ":" + d
    return e


def fail(msg):
    print(f"ERROR: {msg}", file=sys.stderr)
    sys.exit(2)


class Build(threading.Thread):
    """Builds one simulator from /repo's current tree; falls back to a build
    without the operations below the scheme's API if those have changed shape."""

    def __init__(self, flavour):
        super().__init__()
        self.flavour, self.bin, self.log, self.internals = flavour, None, "", True
        self.seconds = 0.0

    def run(self):
        t = time.time()
        for internals in (True, False):
            extra = [] if internals else ["--no-default-features"]
            # build.sh adds --features toy itself
            r = subprocess.run(
                [os.path.join(SIM, "build.sh"), self.flavour, os.path.join(OUT, self.flavour), *extra],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(),
            )
            self.log = r.stdout
            if r.returncode == 0:
                self.bin = os.path.join(OUT, self.flavour, "release", "festa_sim")
                self.internals = internals
                break
            if "could not compile `festa_sim`" not in r.stdout:
                break
        self.seconds = time.time() - t


def with_ref(b, ref):
    return ["--ref", ref.bin] if ref else []


def simulate(b, prop, seed, runs, cap, tier, work, ref=None):
    out = os.path.join(work, f"{prop}-{b.flavour}.json")
    rep = os.path.join(EVID, f"replay-{prop}-{b.flavour}-{seed}.txt")
    for p in (out, rep):
        if os.path.exists(p):
            os.unlink(p)
    recheck = {"toy": 8, "real": 2 if tier == "thorough" else prop == "C08"}[b.flavour.removesuffix("chk")]
    cmd = [b.bin, "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(WORKERS),
           "--seconds", str(cap), "--recheck", str(int(recheck)), "--min-seconds", "60", "--replay", rep, "--out", out, *with_ref(b, ref)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        sys.stderr.write(r.stderr[-2000:])
        fail(f"simulator ({b.flavour}) ended with status {r.returncode}")
    j = json.load(open(out))
    os.unlink(out)
    return j, rep


def replay(b, path, ref=None):
    r = subprocess.run([b.bin, "replay", path, *with_ref(b, ref)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def known(prop):
    """open findings: `open: property=<id> match=<text in the minimised detail> :: description`"""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("open:") and f"property={prop} " in l:
            head, _, desc = l.partition("::")
            res.append((head.split("match=", 1)[1].strip(), desc.strip()))
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    print(f"property {prop} tier {tier} seed {seed}", flush=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    pair = prop in PAIR
    builds = {f: Build(f) for f in ("toy", "real", "toychk", "realchk")[: 4 if pair else 2]}
    for b in builds.values():
        b.start()
    counts, caps = RUNS[prop][tier == "thorough"], CAP[tier]
    results, notes, bad = {}, [], None
    for k, f in enumerate(("toy", "real")):
        b, ref = builds[f], None
        b.join()
        if pair and b.bin:
            ref, b = b, builds[f + "chk"]
            b.join()
        if b.bin is None:
            if f == "toy":
                # the reduced parameter set does not fit this tree: full size only
                notes.append("the reduced-parameter build failed; only the full-size build was run")
                sys.stderr.write(b.log[-1500:])
                continue
            sys.stderr.write(b.log[-3000:])
            fail("the simulator does not build from /repo's current tree")
        if not b.internals:
            notes.append(f"{f}: operations below the scheme's API were left out (they no longer fit)")
        n = counts[k] * (2 if f == "real" and "toy" not in results else 1)
        if ref and ref.internals != b.internals:
            fail("the two builds differ in what they can run")
        j, rep = simulate(b, prop, seed, n, caps[k], tier, OUT, ref)
        j["build_seconds"] = round(b.seconds, 1)
        results[f] = j
        print(f"{f}: {j['runs']} of {j['planned']} runs in {j['seconds']:.1f} s, {j['judged']} judgements, "
              f"{j['distinct']} distinct histories, {sum(j['faults'].values())} faults injected", flush=True)
        if j["recheck_diff"] and not j["violation"]:
            notes.append(f"{f}: runs {j['recheck_diff']} were not repeatable")
        if j["runs"] == 0:
            fail("no run finished within the time cap")
        if j["violation"]:
            bad = (b, j, rep, ref)
            break
    for b in builds.values():
        b.join()
    status = 0
    violations = 0
    lines = []
    if bad:
        b, j, rep, ref = bad
        rc, _ = replay(b, rep, ref)
        detail = j["violation"]["detail"]
        if rc != 1 and prop != "C08" and not j["recheck_diff"]:
            # must never happen: the file is a pure function of the code
            rc, _ = replay(b, rep, ref)
        if rc != 1:
            notes.append("the replay file did not reproduce the violation on its own")
        body = open(rep).read()
        hit = [d for m, d in known(prop) if m and m in body]
        if hit:
            lines.append(f"KNOWN-FINDING: property={prop} {hit[0]}")
        else:
            violations, status = 1, 1
            lines.append(f"VIOLATION property={prop} replay={rep}")
    evidence(prop, tier, seed, results, notes, builds, violations, time.time() - t0)
    for l in lines:
        print(l)
    sys.exit(status)


RULE = (
    "A case is one simulated run: a plan drawn from the seed and the run index (topology, keys, messages, delays, "
    "faults) executed on the real code under the simulator. distinct_nontrivial counts different hashes of the full "
    "observed history (every reply, injected fault, draw count, context switch and verdict) among runs whose oracle "
    "judged at least one outcome."
)


def evidence(prop, tier, seed, results, notes, builds, violations, wall):
    faults, events, probes, samples, per = {}, {}, {}, [], {}
    for f, j in results.items():
        merge(faults, j["faults"])
        merge(events, j["events"])
        merge(probes, j["probes"])
        p = subprocess.run([builds[f].bin, "plan", "--prop", prop, "--seed", str(seed), "--index", "0"],
                           stdout=subprocess.PIPE, text=True).stdout.splitlines()
        samples.append({"flavour": f, "seed": seed, "run": 0, "events": len(p),
                        "plan": [x if len(x) < 240 else x[:237] + "..." for x in p[:40]]})
        per[f] = {k: j[k] for k in (
            "planned", "runs", "seconds", "runs_per_hour", "sim_ms", "work", "draws", "switches", "judged",
            "distinct", "edges", "edges_total", "maxwork", "budget", "rechecked", "recheck_diff", "other",
            "build_seconds", "violation")}
        per[f]["simulated_hours"] = round(j["sim_ms"] / 3.6e6, 2)
    cov = {
        "evaluations": sum(j["runs"] for j in results.values()),
        "distinct_nontrivial": sum(j["distinct"] for j in results.values()),
        "rule": RULE,
        "samples": samples,
        "judgements": sum(j["judged"] for j in results.values()),
        "seeds": [seed],
        "runs_per_hour": {f: j["runs_per_hour"] for f, j in results.items()},
        "simulated_time_hours": round(sum(j["sim_ms"] for j in results.values()) / 3.6e6, 2),
        "faults_injected": faults,
        "events_executed": events,
        "rare_conditions_hit": probes,
        "coverage_measure": "control-flow edges of festa_rs and num-bigint executed (edges of edges_total), and "
                            "distinct history hashes",
        "flavours": per,
        "real_code": ["festa_rs (all modules)", "num-bigint", "rand's ThreadRng and block buffering",
                      "Rust std, panics and process memory"],
        "simulated": ["entropy source under rand (OsRng/getrandom/libc)", "clocks", "thread scheduling",
                      "process crash and restart", "disk", "network", "heap limit and failing allocations",
                      "environment variables, processor count, and calls that leave the process (recorded)"],
        "toy_parameters": "the toy flavour replaces fields.rs's constants by a reduced parameter set "
                          "(--cfg festa_sim_toy); all other code is the shipped code",
        "notes": notes,
    }
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "simulated runs sample the space; a clean batch is evidence, not proof",
            "threads are preempted at edges of the instrumented code, one at a time (sequential consistency)",
        ],
        "wall_s": round(wall, 2), "violations": violations,
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as h:
        json.dump(e, h, indent=1)
        h.write("\n")


def main():
    a = sys.argv[1:]
    if a and a[0] == "build":
        bs = [Build(f) for f in ("toy", "real")]
        [b.start() for b in bs]
        [b.join() for b in bs]
        for b in bs:
            print(f"{b.flavour}: {'ok' if b.bin else 'failed'} in {b.seconds:.0f} s")
            if not b.bin:
                print(b.log[-3000:])
        sys.exit(0 if all(b.bin for b in bs) else 2)
    if a and a[0] == "replay":
        head = open(a[1]).read(4000)
        f = "real" if "flavour=real" in head else "toy"
        bs = [Build(f), Build(f + "chk")] if "class=profile" in head else [Build(f)]
        for b in bs:
            b.run()
            if not b.bin:
                fail(b.log[-3000:])
        rc, out = replay(bs[-1], a[1], bs[0] if len(bs) > 1 else None)
        print(out, end="")
        sys.exit(rc)
    if not a or a[0] not in RUNS:
        fail(__doc__)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    check(a[0], "thorough" if tier == "thorough" else "quick")


main()
