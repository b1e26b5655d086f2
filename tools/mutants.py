#!/usr/bin/env python3
"""Mutation testing of the checks: not a check itself.

Makes small changes to copies of /repo, keeps those that build and pass the
tests, and looks which of them the simulators notice.

    mutants.py WORKDIR LANES SECS SEED [FILE-REGEX]

Results are appended to WORKDIR/results.jsonl.  Uses copies in WORKDIR only.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [f"C{i:02}" for i in range(1, 14)]
HEAP_ONLY = {"C04", "C05", "C09"}

OPS = [
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]),
    (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]),
    (r" /= ", [" *= ", " %= "]), (r" %= ", [" /= "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\b\d[\d_]*\b", ["+1", "-1"]),
    (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
    (r"!(?=[a-z(])", [""]), (r"\bif (?=[a-z!(&*])", ["if true || ", "if false && "]),
    (r"\bchecked_add\b", ["checked_sub"]), (r"\bchecked_sub\b", ["checked_add"]),
    (r"\bchecked_mul\b", ["checked_add"]),
    (r"\bsaturating_sub\b", ["wrapping_sub"]), (r"\btry_push_front\b", ["try_push"]), (r"\btry_push\b", ["try_push_front"]),
    (r"new_reverse\(\)", ["new()"]), (r"NominalString::new\(\)", ["NominalString::new_reverse()"]),
    (r"OutOfMemory\(", ["OutOfBounds("]), (r"OutOfBounds\(", ["OutOfMemory("]),
    (r"\.has_zero_digit\(\)", [".zero_based()"]), (r"\.zero_based\(\)", [".has_zero_digit()"]),
    (r"\.fixed\(\)", [".zero_based()"]), (r"\?;", [".ok();"]), (r"\.rev\(\)", [""]),
    (r"'[^']'", ["SHIFT"]), (r"\.self\.0\b", [".self.1"]),
]


def code_lines(path):
    """Line numbers of a file's code outside tests and comments."""
    lines = open(path).read().split("\n")
    out, depth, test = [], 0, None
    pend = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[test]") or s.startswith("#[cfg(test)]"):
            pend = True
        opens = l.count("{") - l.count("}")
        if pend and "{" in l:
            test, pend = depth, False
        depth += opens
        if test is not None:
            if depth <= test:
                test = None
            continue
        if pend or not s or s.startswith(("//", "#", "use ", "pub use")):
            continue
        out.append(i)
    return lines, out


def mutants(repo, files, rng):
    all_ = []
    for f in sorted(os.listdir(os.path.join(repo, "src"))):
        if not f.endswith(".rs") or not re.search(files, f):
            continue
        path = os.path.join(repo, "src", f)
        lines, code = code_lines(path)
        mine = []
        for i in code:
            l = lines[i]
            body = l.split("//")[0]
            for pat, subs in OPS:
                for m in re.finditer(pat, body):
                    for s in subs:
                        if s == "SHIFT":
                            s = "'%s'" % chr(ord(m.group(0)[1]) + 1)
                        elif s in ("+1", "-1"):
                            s = f"({m.group(0)}{s})" if not re.match(r"^[a-z]", body[m.end():]) else None
                            if s is None:
                                continue
                        mine.append((f, i, l[:m.start()] + s + l[m.end():]))
            s = body.strip()
            if s.endswith(";") and not re.match(r"(let|return|const|static|type|pub|fn|break|continue|struct|mod|\})", s) and len(s) > 4:
                mine.append((f, i, ""))
        # Tables are long: thin them out.
        table = [m for m in mine if re.match(r"\s*\(?[\"'(\[]", lines[m[1]])]
        rest = [m for m in mine if m not in table]
        rng.shuffle(table)
        all_ += rest + table[: max(4, len(rest) // 10)]
    rng.shuffle(all_)
    return all_


class Lane:
    def __init__(self, work, n, cpus):
        self.n, self.cpus = n, cpus
        self.dir = os.path.join(work, f"lane{n}")
        self.repo = os.path.join(self.dir, "repo")
        self.sim = os.path.join(self.dir, "sim")
        if not os.path.isdir(self.dir):
            os.makedirs(self.dir)
            subprocess.run(["git", "clone", "-q", "/repo", self.repo], check=True)
        else:
            subprocess.run(["git", "-C", self.repo, "checkout", "-q", "--", "."], check=True)
            subprocess.run(["git", "-C", self.repo, "pull", "-q"], check=True)
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", self.repo)
        shutil.rmtree(self.sim, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "sim"), self.sim)
        p = os.path.join(self.sim, "sut", "Cargo.toml")
        t = open(p).read().replace("../../../repo", self.repo)
        open(p, "w").write(t)

    def run(self, cmd, cwd, timeout, env=None, cpus=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTC", "RUSTFLAGS", "NOMSIM"))}
        e.update(env or {})
        try:
            return subprocess.run(
                ["taskset", "-c", ",".join(map(str, cpus or self.cpus)), *cmd], cwd=cwd, env=e, timeout=timeout,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
        except subprocess.TimeoutExpired:
            return 124

    def try_one(self, f, i, new, secs, seed):
        path = os.path.join(self.repo, "src", f)
        orig = open(path).read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        try:
            tt = os.path.join(self.dir, "tt")
            env = {"CARGO_TARGET_DIR": tt}
            if self.run(["cargo", "check", "-q", "--offline"], self.repo, 120, env):
                return old, "no-build", None
            if self.run(["cargo", "check", "-q", "--offline", "--lib", "--no-default-features"], self.repo, 120, env):
                return old, "no-build", None
            if self.run(["cargo", "test", "-q", "--offline", "--all-features"], self.repo, 60, env):
                return old, "tests", None
            jobs = []
            for b, feat in (("heap", ["--features", "heap"]), ("noheap", [])):
                cmd = ["cargo", "build", "--release", "--offline", "--locked", "--target-dir",
                       os.path.join(self.dir, "t-" + b), *feat]
                box = []
                t = threading.Thread(target=lambda c=cmd, x=box: x.append(self.run(
                    c, self.sim, 900, {"RUSTC_WRAPPER": os.path.join(self.sim, "rustc-wrap.sh")})))
                t.start()
                jobs.append((t, box))
            for t, box in jobs:
                t.join()
            if any(box[0] for _, box in jobs):
                return old, "sim-build", None
            bins = {b: os.path.join(self.dir, "t-" + b, "release", "nomsim") for b in ("heap", "noheap")}
            todo = [(p, b) for p in PROPS for b in ("heap", "noheap") if b == "heap" or p not in HEAP_ONLY]
            hits = []
            lock = threading.Lock()

            def go(cpu):
                while True:
                    with lock:
                        if not todo:
                            return
                        p, b = todo.pop(0)
                    out = os.path.join(self.dir, f"{p}-{b}.json")
                    if os.path.exists(out):
                        os.unlink(out)
                    rc = self.run([bins[b], "batch", "--prop", p, "--seed", str(seed), "--secs", str(secs), "--out", out,
                                   "--minim", "1", "--replay", out + ".plan"], self.dir, 200, {"NOMSIM_NOHEAP": bins["noheap"]}, [cpu])
                    try:
                        d = json.load(open(out))
                        if "violation" in d:
                            with lock:
                                hits.append((p, b, d["violation"]["class"], d["violation"]["detail"][:300]))
                        elif d["unconfirmed"] or d["mismatches"]:
                            with lock:
                                hits.append((p, b, "UNCONFIRMED", str(d["unconfirmed"])[:300]))
                    except (OSError, ValueError):
                        with lock:
                            hits.append((p, b, "BROKEN", str(rc)))

            ts = [threading.Thread(target=go, args=(c,)) for c in self.cpus]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            return old, "caught" if hits else "SURVIVED", sorted(hits)
        finally:
            open(path, "w").write(orig)


def main():
    work, lanes, secs, seed = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5] if len(sys.argv) > 5 else "."
    os.makedirs(work, exist_ok=True)
    cpus = sorted(os.sched_getaffinity(0))
    per = len(cpus) // lanes
    ls = [Lane(work, n, cpus[n * per:(n + 1) * per]) for n in range(lanes)]
    todo = mutants(ls[0].repo, files, random.Random(seed))
    done = set()
    res = os.path.join(work, "results.jsonl")
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [t for t in todo if t not in done]
    print(len(todo), "mutants to try", flush=True)
    lock = threading.Lock()

    def work_on(lane):
        while not os.path.exists(os.path.join(work, "stop")):
            with lock:
                if not todo:
                    return
                f, i, new = todo.pop(0)
            old, what, hits = lane.try_one(f, i, new, secs, seed)
            with lock, open(res, "a") as out:
                out.write(json.dumps({"file": f, "line": i, "old": old, "new": new, "result": what, "hits": hits},
                                     ensure_ascii=False) + "\n")

    ts = [threading.Thread(target=work_on, args=(l,)) for l in ls]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
