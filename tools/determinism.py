#!/usr/bin/env python3
"""Are runs repeated exactly?  Not a check itself.

    determinism.py RUNS [C01,C06,...]

Runs the same seeds in one process and spread over three, not bound to a
processor, with another environment, and compares the digests of everything
recorded (results, texts, steps, hand-overs).  Needs `check.py --build`.
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAP_ONLY = {"C04", "C05", "C09"}


def go(prop, build, runs, workers):
    jobs = []
    for i in range(workers):
        env = {**os.environ, "JUNK": "x" * (workers * 313 + i),
               "NOMSIM_NOHEAP": f"{HERE}/target/noheap/release/nomsim"}
        jobs.append(subprocess.Popen(
            [f"{HERE}/target/{build}/release/nomsim", "batch", "--prop", prop, "--seed", "77", "--first", str(i),
             "--stride", str(workers), "--runs", str(runs // workers), "--secs", "3600", "--out", "/dev/null",
             "--digests"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    out = []
    for j in jobs:
        out += j.communicate()[0].splitlines()
    return sorted(out)


def main():
    runs = int(sys.argv[1]) // 3 * 3
    props = sys.argv[2].split(",") if len(sys.argv) > 2 else [f"C{i:02}" for i in range(1, 14)]
    total = bad = 0
    for p in props:
        for b in ("heap", "noheap"):
            if b == "noheap" and p in HEAP_ONLY:
                continue
            one, three = go(p, b, runs, 1), go(p, b, runs, 3)
            d = sorted(set(one) ^ set(three))
            total += len(one)
            bad += len(d)
            print(p, b, len(one), "runs", f"{len(d)} differ {d[:4]}" if d or len(one) != runs else "the same", flush=True)
    print(f"{total} runs, {bad} differences")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
