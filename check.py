#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay PLAN] [--seed N] [--runs N]

Decides one property by deterministic simulation: builds the simulator from /repo's current tree, runs seeded
executions of the property's profile, and reports either evidence (exit 0) or a minimised, replayable violation
(exit 1).  Exit 2 is an error of the check itself: the build failed, or a failure did not repeat.
"""
import argparse, collections, json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "lib"))
import build as B  # noqa: E402

ASAN = "detect_leaks=0:handle_segv=1:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"
WORKERS = max(2, os.cpu_count() or 2)
CHUNK = 25
HANG = 1999    # the code of a run without end
ALL = ["S%02d" % i for i in range(1, 16)]

TAGS = {}          # filled from the simulator: "sim tags PROFILE"
# (flavour, runs, seconds at most) of the property's own profile
QUICK = {p: [("rel", 16000, 120)] for p in ALL}
for p in ("S04", "S07", "S10", "S13"):
    QUICK[p] = [("rel", 12000, 120)]
for p in ("S02", "S05", "S07", "S13"):
    QUICK[p].append(("asan", 800, 60))
QUICK["S08"] = [("rel", 9000, 90), ("asan", 4000, 120)]
QUICK["S09"] = [("rel", 14000, 120), ("asan", 1500, 60)]
THOROUGH = {p: [("rel", 150000, 280), ("asan", 30000, 160)] for p in ALL}
THOROUGH["S08"] = [("rel", 80000, 130), ("asan", 60000, 330)]
# the other profiles' histories, judged by this property's tags: (flavour, runs per profile, seconds at most for all)
CROSS = {"quick": ("rel", 400, 90), "thorough": ("rel", 1000000, 150)}

REAL = ["parser and lexer (Narsese/Parser)", "term, statement, compound, sentence, task (Narsese)", "interpreter and symbol tables (Interpreter)",
        "variable indices and ordering (utils)", "clock-reading and stamping code (Global, Narsese)", "Python module (Narsese.cpp) inside an embedded CPython"]
STUB = ["malloc, calloc, realloc, free, strdup and operator new/delete: simulated heap deciding placement, reuse, contents and failure",
        "the clock GLOBAL::time, the duration and the maximum evidence length: set by the simulator",
        "Python's garbage collector: off, run when the plan says so", "standard input and main.cpp: not part of the simulation"]


def note(s):
    print(s, file=sys.stderr, flush=True)


def env(tags=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("SIM_")}
    e.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=0", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
    if tags:
        e["SIM_TAGS"] = ",".join(tags)
    return e


def lines(cmd, e, timeout):
    r = subprocess.run(cmd, env=e, capture_output=True, timeout=timeout)
    out = []
    for l in r.stdout.decode("utf-8", "replace").splitlines():
        try:
            out.append(json.loads(l))
        except ValueError:
            raise RuntimeError("unreadable line of the simulator: " + l[:200])
    if r.returncode:
        raise RuntimeError(f"simulator ended with {r.returncode}: " + r.stderr.decode("utf-8", "replace")[-500:])
    return out


def failed(o):
    return "violation" in o or "crash" in o


def clsof(o):
    """The class of a failure: what minimisation must keep."""
    if "violation" in o:
        head = re.split(r"[:'\"<(\[]", o["violation"], 1)[0]
        return "violation " + o["tags"] + " " + re.sub(r"\d+", "N", head).strip()
    if "crash" in o:
        err = o.get("stderr", "")
        m = re.search(r"SUMMARY: \w+: ([\w-]+)", err) or re.search(r"runtime error: ([a-z -]+)", err) or re.search(r"SIM: ([a-z -]+)", err)
        return "crash " + str(o["code"]) + " " + (m.group(1).strip() if m else "")
    return ""


def same(a, b):
    """Do two runs agree in everything that is recorded?  (The text of a crash names the process, so only its class.)"""
    if "crash" in a or "crash" in b:
        return clsof(a) == clsof(b) and a.get("step") == b.get("step")
    return all(a.get(k) == b.get(k) for k in ("digest", "violation", "tags", "step", "counters", "states"))


def tell(o):
    if "violation" in o:
        return o["violation"]
    err = [l for l in o.get("stderr", "").splitlines() if re.search("SUMMARY|runtime error|ERROR: |SIM|terminate|what\\(\\)|ssertion", l)]
    return o["crash"] + (" - " + err[-1].strip() if err else "")


class Sim:
    def __init__(self, path, flavour):
        self.path, self.flavour = path, flavour

    def run(self, profile, first, count, tags=None):
        out = lines([self.path, "run", profile, str(first), str(count)], env(tags), 90 * count + 60)
        if len(out) != count and not (out and out[-1].get("code") == HANG):
            raise RuntimeError(f"{len(out)} results for {count} seeds")
        return out

    def plan(self, profile, seed):
        r = subprocess.run([self.path, "plan", profile, str(seed)], env=env(), capture_output=True, check=True)
        return r.stdout.decode("latin-1").splitlines()

    def execute(self, profile, plans, tags=None):
        """One result per plan, each in a process forked from a fresh simulator."""
        with tempfile.TemporaryDirectory() as d:
            names = []
            for i, p in enumerate(plans):
                n = os.path.join(d, f"{i}.plan")
                Path(n).write_bytes(("\n".join(p) + "\n").encode("latin-1"))
                names.append(n)
            return lines([self.path, "exec", profile, *names], env(tags), 90 * len(plans) + 60)


def spread(jobs, fn, deadline):
    """Runs fn over jobs on all cores, in order, starting none after the deadline."""
    def guarded(j):
        return None if time.time() > deadline else fn(j)
    with ThreadPoolExecutor(WORKERS) as ex:
        for j, r in zip(jobs, ex.map(guarded, jobs)):
            if r is not None:
                yield j, r


class Tally:
    def __init__(self):
        self.runs = 0
        self.seconds = 0.0
        self.counters = collections.Counter()
        self.states = set()
        self.ends = set()
        self.nontrivial = set()
        self.switches = set()
        self.by = collections.Counter()
        self.ranges = []

    def take(self, o, what):
        self.runs += 1
        self.by[what] += 1
        c = o.get("counters", {})
        self.counters.update(c)
        self.states.update(o.get("states", ()))
        d = o.get("digest")
        self.ends.add(d)
        if any(v for k, v in c.items() if k.startswith("fault_")) and c.get("context_switches", 0) >= 2 and len(o.get("states", ())) >= 5:
            self.nontrivial.add(d)


def search(sim, profile, first, count, seconds, tags, tally, what):
    """Runs seeds first..first+count-1; returns the failures, lowest seed first."""
    t0 = time.time()
    jobs = [(s, min(CHUNK, first + count - s)) for s in range(first, first + count, CHUNK)]
    bad, last = [], first
    stop = [t0 + seconds]

    def one(j):
        return None if time.time() > stop[0] else sim.run(profile, j[0], j[1], tags)

    with ThreadPoolExecutor(WORKERS) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r is None:
                continue
            last = j[0] + j[1]
            for o in r:
                if "broken" in o:
                    raise RuntimeError(f"seed {o['label']} of {profile}: {o['broken']}")
                tally.take(o, what)
                if failed(o):
                    bad.append((profile, int(o["label"]), o))
            if len(bad) >= 40:
                stop[0] = 0
    tally.seconds += time.time() - t0
    tally.ranges.append(f"{what}: seeds {first}..{last - 1}")
    return bad


def reproduce(sim, profile, seed, tags):
    """The plan of a failing seed, if two fresh processes fail in the same way; None otherwise."""
    plan = sim.plan(profile, seed)
    with ThreadPoolExecutor(3) as ex:
        a, b = (ex.submit(sim.execute, profile, [plan], tags) for _ in range(2))
        c = ex.submit(sim.run, profile, seed, 1, tags)
        a, b, c = a.result()[0], b.result()[0], c.result()[0]
    if failed(a) and same(a, b) and same(a, c):
        return plan, a
    return None


def minimise(sim, profile, plan, tags, cls, seconds=75):
    """ddmin over the steps of the plan, then over the sessions; the first line configures the run and stays."""
    deadline = time.time() + seconds
    head, body = plan[:1], plan[1:]

    def first_failing(cands):
        for k in range(0, len(cands), WORKERS):
            if time.time() > deadline:
                return None
            part = cands[k:k + WORKERS]
            with ThreadPoolExecutor(WORKERS) as ex:
                res = list(ex.map(lambda c: sim.execute(profile, [head + c], tags)[0], part))
            for c, o in zip(part, res):
                if clsof(o) == cls:
                    return c
        return None

    # nothing after the failing step matters
    step = sim.execute(profile, [plan], tags)[0].get("step", "")
    m = re.match(r"(?:pass \d+ )?(\d+) ", step or "")
    if m:
        for i, l in enumerate(body):
            if l.split(" ", 1)[0] == m.group(1):
                got = first_failing([body[:i + 1]])
                if got is not None:
                    body = got
                break
    n = 2
    while len(body) >= 2 and time.time() < deadline:
        size = max(1, len(body) // n)
        parts = [(i, min(len(body), i + size)) for i in range(0, len(body), size)]
        got = first_failing([body[:a] + body[b:] for a, b in parts])
        if got is not None:
            body, n = got, max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(body), 2 * n)
    # plainer configuration, as far as the failure stays
    for a, b in (("junk=2", "junk=0"), ("junk=1", "junk=0"), ("reuse=2", "reuse=0"), ("reuse=1", "reuse=0"), ("dir=2", "dir=0"), ("dir=1", "dir=0"), ("py=1", "py=0"), ("passes=3", "passes=2")):
        if a in head[0].split() and time.time() < deadline:
            h = [" ".join(b if w == a else w for w in head[0].split())]
            if clsof(sim.execute(profile, [h + body], tags)[0]) == cls:
                head = h
    return head + body


def load_known():
    out = []
    f = VERIF / "known-findings.json"
    if f.exists():
        out = json.loads(f.read_text())["findings"]
    return out


def known(pid, sim):
    """Re-executes the recorded histories of this property's known findings.  Returns violations the file does not list."""
    extra = []
    for k in load_known():
        if k["property"] != pid:
            continue
        for pr in k["probes"]:
            o = sim.execute(pid, [pr["plan"]])[0]
            if "violation" in o and o["violation"] == pr["violation"]:
                print(f"KNOWN-FINDING: property={pid} {k['id']}: {pr['what']}", flush=True)
            elif failed(o):
                extra.append((pid, 0, o, pr["plan"]))
            elif "broken" in o:
                raise RuntimeError(f"known finding {k['id']}: {o['broken']}")
            # a probe that passes: the finding is gone, nothing to say
    return extra


def report(pid, sim, profile, seed, plan, o, tags, do_min=True):
    cls = clsof(o)
    full = len(plan) - 1
    small = minimise(sim, profile, plan, tags, cls) if do_min else plan
    with ThreadPoolExecutor(2) as ex:
        a, b = (o[0] for o in ex.map(lambda _: sim.execute(profile, [small], tags), range(2)))
    if not (clsof(a) == cls and same(a, b)):
        small = plan
        a = o
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    f = d / f"{pid}-{profile}-{sim.flavour}-{seed}.plan"
    head = [f"# replay property={pid} profile={profile} flavour={sim.flavour} tags={','.join(tags)} seed={seed}",
            "# class " + cls, "# " + tell(a).replace("\n", " | ")]
    f.write_bytes(("\n".join(head + small) + "\n").encode("utf-8", "replace"))
    f2 = d / f"{pid}-{profile}-{sim.flavour}-{seed}.full"
    f2.write_bytes(("\n".join(plan) + "\n").encode("latin-1", "replace"))
    print(f"property {pid} does not hold: {tell(a)[:1500]}")
    print(f"  seed {seed} of profile {profile} ({sim.flavour}); {full} steps, {len(small) - 1} after minimisation; failing step: {a.get('step', '')[:300]}")
    for l in small[:25]:
        print("    " + l[:300])
    print(f"VIOLATION property={pid} replay={f}", flush=True)


def replay(pid, path):
    raw = Path(path).read_bytes().decode("latin-1").splitlines()
    meta = dict(w.split("=", 1) for w in raw[0].split() if "=" in w)
    plan = [l for l in raw if not l.startswith("# ")]
    cls = next(l for l in raw if l.startswith("# class "))[8:]
    sim = Sim(B.build(meta["flavour"], note)[0], meta["flavour"])
    tags = meta["tags"].split(",")
    a, b = (sim.execute(meta["profile"], [plan], tags)[0] for _ in range(2))
    if not same(a, b):
        note("the replay is not repeatable")
        return 2
    if failed(a):
        print(tell(a))
        print("same class as recorded" if clsof(a) == cls else f"another class than recorded: {clsof(a)}")
        print(f"VIOLATION property={meta['property']} replay={path}")
        return 1
    print("the replay does not fail on this tree")
    return 0


def tags_of(sim, profile):
    r = subprocess.run([sim.path, "tags", profile, "-"], env=env(), capture_output=True, text=True, check=True)
    return r.stdout.split()


def determinism(sim, profile, first, count, tags, sample):
    """Runs a sample of seeds again, one process per grouping that differs from the search's, and compares every record."""
    seeds = [first + i * max(1, count // sample) for i in range(sample)]
    with ThreadPoolExecutor(3) as ex:          # another worker count than the search
        one = list(ex.map(lambda s: sim.run(profile, s, 1, tags)[0], seeds))
    diff = 0
    with ThreadPoolExecutor(WORKERS) as ex:
        plans = list(ex.map(lambda s: sim.plan(profile, s), seeds))
    half = (len(seeds) + 1) // 2
    two = sim.execute(profile, plans[:half], tags) + sim.execute(profile, plans[half:], tags)
    bad = []
    for s, a, b in zip(seeds, one, two):
        if not same(a, b):
            diff += 1
            bad.append(s)
    return len(seeds), bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid = a.id
    if a.replay:
        return replay(pid, a.replay)
    t0 = time.time()
    stages = (QUICK if a.tier == "quick" else THOROUGH)[pid]
    first = abs(a.seed) % 1000000 * 1000000 + 1
    print(f"{pid} {a.tier}: VERIF_SEED {a.seed}, seeds from {first}", flush=True)

    sims, compiler = {}, {}
    for fl in dict.fromkeys(f for f, _, _ in stages):
        path, compiler[fl] = B.build(fl, note)
        sims[fl] = Sim(path, fl)
    built = time.time() - t0
    main_sim = sims.get("rel") or next(iter(sims.values()))
    tags = tags_of(main_sim, pid)
    tally, bad, checked, unequal = Tally(), [], 0, []

    for p, s, o, plan in known(pid, main_sim):
        report(pid, main_sim, p, s, plan, o, tags, do_min=False)
        return write(a, pid, tally, tags, t0, built, 1, [], compiler, 0) or 1

    for fl, runs, seconds in stages:
        sim = sims[fl]
        if a.runs:
            runs = a.runs
        found = search(sim, pid, first, runs, seconds, tags, tally, f"{pid}/{fl}")
        bad += [(sim, *f) for f in found]
        if bad:
            break
        n, diff = determinism(sim, pid, first, runs, tags, 48 if a.tier == "quick" else 160)
        checked += n
        unequal += [(fl, s) for s in diff]
    if not bad:
        fl, runs, seconds = CROSS[a.tier]
        others = [p for p in ALL if p != pid]
        for p in others:
            found = search(sims[fl], p, first, min(runs, a.runs or runs), seconds / len(others), tags, tally, f"{p}/{fl}")
            bad += [(sims[fl], *f) for f in found]
            if bad:
                break

    if bad:
        # a failure counts if fresh processes repeat it exactly
        seen = set()
        for sim, profile, seed, o in bad:
            if len(seen) >= 25:
                break
            seen.add(seed)
            got = reproduce(sim, profile, seed, tags)
            if got:
                report(pid, sim, profile, seed, got[0], got[1], tags)
                write(a, pid, tally, tags, t0, built, len(bad), [], compiler, checked)
                return 1
        note(f"{len(bad)} runs failed, none of the first {len(seen)} repeats: " + "; ".join(f"seed {s}: {tell(o)[:200]}" for _, _, s, o in bad[:3]))
        return 2
    if unequal:
        note(f"runs differ between processes: {unequal[:10]}")
        return 2
    samples = [{"seed": s, "plan": main_sim.plan(pid, s)[:30]} for s in (first, first + 1)]
    write(a, pid, tally, tags, t0, built, 0, samples, compiler, checked)
    print(f"{pid}: held on {tally.runs} runs, {len(tally.nontrivial)} distinct and non-trivial; {time.time() - t0:.1f} s")
    return 0


def write(a, pid, t, tags, t0, built, violations, samples, compiler, checked):
    c = t.counters
    hours = max(t.seconds, 1e-9) / 3600
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "violations": violations, "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": len(t.nontrivial),
            "rule": "One evaluation is one simulated run: a seed decides the heap's placement policy, the sessions, every operation and its arguments, the order in which sessions take turns, the clock and the faults. "
                    "Runs are distinct if the digests of their complete event logs differ; a run is non-trivial if at least one fault fired in it, sessions took turns at least twice and at least five steps were executed.",
            "samples": samples or [{"note": "the run ended in a violation; see the replay file"}],
            "runs_by_profile_and_build": dict(t.by),
            "seed_ranges": t.ranges,
            "runs_per_hour": round(t.runs / hours),
            "seeds_per_hour": round(t.runs / hours),
            "simulated_time_ticks": c.get("sim_ticks", 0),
            "simulated_steps": sum(v for k, v in c.items() if k.startswith("step_")),
            "allocations_simulated": c.get("allocs", 0),
            "session_switches": c.get("context_switches", 0),
            "distinct_event_logs": len(t.ends),
            "distinct_states": len(t.states),
            "state_measure": "hash, after each step, of the canonical content of all held objects and of the number of known names (addresses excluded)",
            "faults_fired": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault_")},
            "operations_executed": {k[5:]: v for k, v in sorted(c.items()) if k.startswith("step_")},
            "oracle_activity": {k: v for k, v in sorted(c.items()) if not k.startswith(("fault_", "step_", "ignored_")) and k not in ("allocs", "sim_ticks", "context_switches")},
            "determinism_seeds_compared": checked,
            "tags_judged": tags,
            "compilers": compiler,
            "build_s": round(built, 1),
            "ran_real_code": REAL, "replaced_by_the_simulator": STUB,
        },
        "assumptions": [
            "lines up to 8 KiB, nested up to 500 deep",
            "sessions take turns between library calls; the library promises nothing to concurrent threads",
            "sampled, not enumerated: a quiet batch is evidence, not proof",
        ],
    }
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    tmp = d / f".{pid}.tmp"
    tmp.write_text(json.dumps(ev, indent=1))
    os.replace(tmp, d / f"{pid}.json")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (B.BuildError, RuntimeError, subprocess.SubprocessError, OSError) as e:
        note(f"check failed: {e}")
        sys.exit(2)
