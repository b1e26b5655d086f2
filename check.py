#!/usr/bin/env python3
"""Decides one property by seeded simulation.

    check.py C06                 search (VERIF_SEED, VERIF_TIER, NOMSIM_SECS)
    check.py --replay FILE       run one recorded plan again
    check.py --build             build both simulators

Exit 0: no violation.  Exit 1: a line "VIOLATION property=<id> replay=<path>".
Exit 2: the check itself is at fault.
"""
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = "/repo"

# Which builds a property is decided on, and the share of the workers of each.
BUILDS = {
    "C01": ("heap", "noheap"),
    "C02": ("heap", "noheap"),
    "C03": ("heap", "noheap"),
    "C04": ("heap",),
    "C05": ("heap",),
    "C06": ("heap", "noheap"),
    "C07": ("heap", "noheap"),
    "C08": ("heap", "noheap"),
    "C09": ("heap",),  # starts the other build itself
    "C10": ("heap", "noheap"),
    "C11": ("heap", "noheap"),
    "C12": ("heap", "noheap"),
    "C13": ("heap", "noheap"),
}

COUNTS = {
    "C01": "memory ran out in it: a heap request was refused, or (build without heap) a text did not fit inline",
    "C02": "memory ran out in it: a heap request was refused, or (build without heap) a text did not fit inline",
    "C03": "a string outgrew the inline buffer or a step was refused",
    "C04": "a text came within 14 bytes of the inline capacity or over it",
    "C05": "a heap request was refused after others were granted, or a panic unwound the library",
    "C06": "a caller was suspended inside a call, or a call was made from inside another",
    "C07": "an earlier call was refused memory, unwound by a panic, or met a failing sink",
    "C08": "a sink failed or panicked",
    "C09": "a text came within 8 bytes of the inline capacity or over it",
    "C10": "memory was refused (or the text did not fit inline), or a call took more than 5000 steps",
    "C11": "a caller died inside a call",
    "C12": "a panic was thrown inside caller-supplied code",
    "C13": "a caller-supplied collection was asked for its length or a digit",
}

LEVEL = {p: "exploration" for p in BUILDS}


def die(message):
    print(f"check: {message}", file=sys.stderr)
    sys.exit(2)


def clean_env():
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("RUSTFLAGS", "RUSTC", "CARGO_BUILD", "CARGO_ENCODED", "CARGO_PROFILE",
                             "CARGO_TARGET", "CARGO_INCREMENTAL", "NOMSIM", "RUST_"))
    }
    env["RUSTC_WRAPPER"] = os.path.join(SIM, "rustc-wrap.sh")
    env["CARGO_TERM_COLOR"] = "never"
    return env


def tree_hash():
    """The files the library is built from, so that no stale build is used."""
    h = hashlib.sha256()
    names = [os.path.join(REPO, "Cargo.toml")]
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        names += [os.path.join(base, f) for f in sorted(files)]
    for n in sorted(names):
        h.update(n.encode() + b"\0")
        with open(n, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def binary(build):
    return os.path.join(HERE, "target", build, "release", "nomsim")


def build(builds):
    want = tree_hash()
    jobs = []
    for b in builds:
        target = os.path.join(HERE, "target", b)
        os.makedirs(target, exist_ok=True)
        mark = os.path.join(target, "tree.sha256")
        have = open(mark).read() if os.path.exists(mark) else ""
        if have != want:
            # Modification times are not to be trusted: forget the library.
            prints = os.path.join(target, "release", ".fingerprint")
            if os.path.isdir(prints):
                for d in os.listdir(prints):
                    if d.startswith(("nominals-", "sut-")):
                        shutil.rmtree(os.path.join(prints, d))
            with open(mark, "w") as f:
                f.write("")
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--target-dir", target]
        if b == "heap":
            cmd += ["--features", "heap"]
        log = open(os.path.join(target, "build.log"), "w+")
        jobs.append((b, mark, log, subprocess.Popen(cmd, cwd=SIM, env=clean_env(), stdout=log, stderr=log)))
    for b, mark, log, j in jobs:
        if j.wait() != 0:
            log.seek(0)
            sys.stderr.write(log.read()[-4000:])
            die(f"the simulator does not build ({b})")
        harvest(os.path.join(HERE, "target", b))
        with open(mark, "w") as f:
            f.write(want)


def harvest(target):
    """The numbers the library compares with, divides by and so on: a hint to
    the generator where something might change.  Kept until the next build."""
    deps = os.path.join(target, "release", "deps")
    codes = [os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".ll")]
    if not codes:
        return
    op = r"(icmp|urem|udiv|mul|add|sub|and|or|xor)( [a-z]+)* i[0-9]+ [^,]+, -?[0-9]+|^ +i[0-9]+ [0-9]+, label"
    out = subprocess.run(["grep", "-hoE", op, *codes], stdout=subprocess.PIPE, env={**os.environ, "LC_ALL": "C"}).stdout
    found = set()
    for line in set(out.split(b"\n")):
        w = line.split()
        if not w:
            continue
        n = int(w[1][:-1] if w[-1] == b"label" else w[-1])
        bits = int(next(x for x in w if re.fullmatch(rb"i[0-9]+", x))[1:])
        if n < 0:
            found.add(n + (1 << bits))
            n = -n
        found.add(n)

    def text(n):
        b = n.to_bytes(16, "little").rstrip(b"\0")
        return len(b) > 3 and all(32 <= x < 127 for x in b)

    names = sorted(n for n in found if 2 < n < 1 << 128 and not text(n))
    with open(os.path.join(target, "numbers"), "w") as f:
        f.write("".join(f"{n}\n" for n in names))
    for c in codes:
        os.unlink(c)


def run_env(prop):
    env = {k: v for k, v in os.environ.items() if not k.startswith("NOMSIM")}
    if prop == "C09":
        env["NOMSIM_NOHEAP"] = binary("noheap")
    return env


def read_plan(path):
    found = {}
    for line in open(path):
        words = line.split()
        if len(words) == 2 and words[0] in ("property", "build"):
            found.setdefault(words[0], words[1])
    if "property" not in found or "build" not in found:
        die(f"{path} is not a recorded plan")
    return found["property"], found["build"]


def replay_once(path, prop, b):
    r = subprocess.run([binary(b), "replay", path], env=run_env(prop), stdout=subprocess.PIPE, text=True)
    return r.returncode, r.stdout


def replay(path):
    path = os.path.abspath(path)
    prop, b = read_plan(path)
    build(("heap", "noheap") if prop == "C09" else (b,))
    code, text = replay_once(path, prop, b)
    print(text, end="")
    if code == 1:
        print(f"VIOLATION property={prop} replay={path}")
    return code if code in (0, 1) else 2


def read_hashes(path):
    with open(path, "rb") as f:
        data = f.read()
    at = 0
    sets = []
    for _ in range(2):
        (n,) = struct.unpack_from("<Q", data, at)
        at += 8
        sets.append(set(struct.unpack_from(f"<{n}Q", data, at)))
        at += 8 * n
    half = (len(data) - at) // 2
    return sets[0], sets[1], data[at:at + half], data[at + half:]


def merge(a, b):
    """The union of two maps of visited blocks."""
    return b if a is None else (int.from_bytes(a, "little") | int.from_bytes(b, "little")).to_bytes(len(a), "little")


def search(prop, tier, seed):
    start = time.time()
    builds = BUILDS[prop]
    build(("heap", "noheap") if prop == "C09" else builds)
    built = time.time() - start
    secs = float(os.environ.get("NOMSIM_SECS") or (45 if tier == "quick" else 720))
    cpus = sorted(os.sched_getaffinity(0))
    n = max(len(builds), len(cpus))
    split = {}
    if len(builds) == 1:
        split[builds[0]] = n
    else:
        split["heap"] = min(n - 1, max(1, round(n * 0.625)))
        split["noheap"] = n - split["heap"]

    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="nomsim-")
    workers = []
    try:
        k = 0
        for b, count in split.items():
            for i in range(count):
                base = os.path.join(work, f"{b}-{i}")
                cmd = [
                    binary(b), "batch", "--prop", prop, "--seed", str(seed), "--first", str(i),
                    "--stride", str(count), "--secs", str(secs), "--out", base + ".json",
                    "--hashes", base + ".bin", "--replay", base + ".plan", "--minim", "25",
                ]
                cpu = cpus[k % len(cpus)]
                k += 1
                err = open(base + ".err", "w")
                p = subprocess.Popen(
                    cmd, env=run_env(prop), stdout=subprocess.DEVNULL, stderr=err,
                    preexec_fn=lambda cpu=cpu: os.sched_setaffinity(0, {cpu}),
                )
                workers.append((b, i, base, p))
        first = None
        limit = time.time() + secs + 150
        while any(w[3].poll() is None for w in workers):
            time.sleep(0.1)
            if first is None and any(os.path.exists(w[2] + ".plan") for w in workers):
                # One worker has a violation: the others need not go on long.
                first = time.time()
                limit = min(limit, first + 3)
            if time.time() > limit:
                for w in workers:
                    if w[3].poll() is None:
                        w[3].kill()
        return finish(prop, tier, seed, start, built, secs, workers, replays, len(cpus))
    finally:
        for w in workers:
            if w[3].poll() is None:
                w[3].kill()
                w[3].wait()
        shutil.rmtree(work, ignore_errors=True)


SUM = [
    "plans", "runs", "alone_runs", "counted", "yield_points", "shared_loads", "shared_stores", "callbacks",
    "suspended_mid_call", "callers_killed", "callback_panics", "reentrant_calls", "collection_growths",
    "sink_faults", "heap_requests", "heap_refusals", "operations", "rechecked", "mismatches", "seconds",
]
MAX = ["max_steps", "max_bound_permille", "max_copy_permille", "max_tail", "max_tail_requests", "max_run_cpu_ms"]


def finish(prop, tier, seed, start, built, secs, workers, replays, cpus):
    total = {k: 0 for k in SUM}
    total.update({k: 0 for k in MAX})
    distinct, inter = {}, {}
    maps = {}
    blocks = {}
    strategies, other = {}, {}
    samples, unconfirmed, found, broken = [], [], [], []
    for b, i, base, p in workers:
        if not os.path.exists(base + ".json"):
            if p.returncode is not None and p.returncode != -9:
                err = open(base + ".err").read()[-2000:]
                broken.append(f"worker {b}-{i} ended with {p.returncode}: {err}")
            continue
        try:
            d = json.load(open(base + ".json"))
            a, c, ran, at = read_hashes(base + ".bin")
        except (ValueError, OSError, struct.error):
            continue  # killed while writing
        for k in SUM:
            total[k] += d[k]
        for k in MAX:
            total[k] = max(total[k], d[k])
        distinct.setdefault(b, set()).update(a)
        inter.setdefault(b, set()).update(c)
        m = maps.get(b, (None, None))
        maps[b] = (merge(m[0], ran), merge(m[1], at))
        blocks[b] = d["blocks_total"]
        for name, into in (("strategies", strategies), ("other", other)):
            for k, v in d[name].items():
                into[k] = into.get(k, 0) + v
        if len(samples) < 3 and d["samples"]:
            samples.append(d["samples"][0])
        unconfirmed += [f"{b}: {u}" for u in d["unconfirmed"]]
        if "violation" in d:
            found.append((d["violation"]["ops"], b, d["violation"]))

    violation = None
    for _, b, v in sorted(found, key=lambda x: (x[0], x[1])):
        path = os.path.join(replays, f"{prop}-{b}-{v['seed']}.plan")
        with open(path, "w") as f:
            f.write(v["text"])
        # In fresh processes it has to fail the same way, step by step.
        once, twice = replay_once(path, prop, b), replay_once(path, prop, b)
        if once[0] == 1 and once == twice and v["class"] in once[1]:
            violation = (path, v)
            break
        unconfirmed.append(f"{b}: {v['class']}: {v['detail']} (not the same when replayed: {path})")

    both = lambda sets: sum(len(s) for s in sets.values())
    reach = {
        b: {
            "blocks_of_library_and_glue": blocks[b],
            "executed": sum(1 for x in m[0] if x),
            "suspended_or_killed_at": sum(1 for x in m[1] if x),
        }
        for b, m in maps.items()
    }
    hours = max(total["seconds"], 0.001) / 3600 / max(1, len([1 for w in workers]))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL[prop],
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": both(distinct),
            "rule": "One evaluation is one simulated run in a process of its own, made from one seed: callers, "
                    "their operations, faults and schedule. It counts as non-trivial if " + COUNTS[prop] +
                    "; two are distinct if the systems, the recorded results and step counts, or the schedule differ.",
            "samples": samples,
            "seeds": total["plans"],
            "runs_per_hour": round(total["runs"] / hours),
            "seeds_per_hour": round(total["plans"] / hours),
            "simulated_time_in_steps": total["yield_points"],
            "simulated_time_unit": "one step is one basic block of the library entered; every block, and every load "
                                   "or store of memory that outlives a call, can be where the scheduler hands over",
            "operations": total["operations"],
            "faults_injected": {
                "heap_requests_seen": total["heap_requests"],
                "heap_requests_refused": total["heap_refusals"],
                "callers_suspended_inside_a_call": total["suspended_mid_call"],
                "callers_killed_inside_a_call": total["callers_killed"],
                "panics_in_caller_supplied_code": total["callback_panics"],
                "calls_from_inside_caller_supplied_code": total["reentrant_calls"],
                "collections_grown_during_a_call": total["collection_growths"],
                "output_sink_failures": total["sink_faults"],
            },
            "calls_into_caller_supplied_code": total["callbacks"],
            "loads_of_lasting_memory": total["shared_loads"],
            "stores_to_lasting_memory": total["shared_stores"],
            "distinct_interleavings": both(inter),
            "interleaving_measure": "who handed over to whom, in which system and integer type, after how many steps",
            "scheduling_strategies": strategies,
            "reach": reach,
            "runs_repeated_to_check_determinism": total["rechecked"],
            "repeats_that_differed": total["mismatches"],
            "runs_of_a_call_alone_as_reference": total["alone_runs"],
            "most_steps_in_a_call": total["max_steps"],
            "most_steps_relative_to_the_bound_permille": total["max_bound_permille"],
            "most_bytes_copied_relative_to_the_bound_permille": total["max_copy_permille"],
            "most_steps_after_memory_was_refused_for_good": total["max_tail"],
            "most_requests_after_memory_was_refused_for_good": total["max_tail_requests"],
            "longest_run_cpu_ms": total["max_run_cpu_ms"],
            "builds": {b: sum(1 for w in workers if w[0] == b) for b in BUILDS[prop]},
            "workers": len(workers),
            "cpus": cpus,
            "build_seconds": round(built, 1),
            "search_seconds": round(total["seconds"] / max(1, len(workers)), 1),
            "alarms_of_other_properties_seen": other,
            "alarms_that_could_not_be_repeated": unconfirmed[:20],
            "real_code": "all of nominals, built from /repo's working tree (release, unwinding), with core and alloc",
            "stubs": "global allocator (an arena that can refuse, with redzones and a ledger), scheduler of the "
                     "callers, output sinks, and the callers' own digit collections and systems",
        },
        "assumptions": [
            "The seeds explored are a sample; nothing is claimed about schedules and faults not reached.",
            "Callers are switched at basic blocks and at loads and stores of lasting memory of the library; "
            "interleavings are sequentially consistent.",
            "The reference models of sim/src/model.rs state the representation of a number.",
        ],
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if violation else 0,
    }
    if violation:
        evidence["coverage"]["violation"] = {k: violation[1][k] for k in ("class", "detail", "seed", "tries")}
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".new", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".new", path)

    print(f"{prop}: {total['plans']} seeds, {total['runs']} runs, {both(distinct)} distinct and non-trivial, "
          f"{total['yield_points']} steps, {evidence['wall_s']} s")
    if violation:
        print(f"{violation[1]['class']}: {violation[1]['detail']}")
        print(f"VIOLATION property={prop} replay={violation[0]}")
        return 1
    real = [u for u in unconfirmed if "stalled" not in u]
    for u in real:
        print(f"not repeatable: {u}", file=sys.stderr)
    if broken:
        die("; ".join(broken))
    if real:
        die("an alarm could not be repeated")
    if total["mismatches"]:
        die("a run was not repeated exactly")
    if total["plans"] == 0:
        die("nothing was run")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        build(("heap", "noheap"))
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if len(a) != 1 or a[0] not in BUILDS:
        die("usage: check.py C01..C13 | --replay FILE | --build")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    print(f"seed {seed}, {tier}")
    return search(a[0], tier, seed % (1 << 64))


if __name__ == "__main__":
    sys.exit(main())
