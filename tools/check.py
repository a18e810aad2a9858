#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors from /repo, runs the workload in parallel
chunks, turns what the monitors and sanitizers reported into a verdict and writes the evidence.

  tools/check.py C01                 (VERIF_TIER and VERIF_SEED select tier and seed)
  tools/check.py C01 --replay plain:12345   one case, verbose
"""
import json
import os
import queue
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from plans import PLANS

ROOT = B.ROOT
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))
HANG_CPU = 30

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_odr_violation=0",
    "LSAN_OPTIONS": "report_objects=0:print_suppressions=0:leak_check_at_exit=0:suppressions=" + os.path.join(ROOT, "tools", "lsan.supp"),
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:suppressions=" + os.path.join(ROOT, "tools", "tsan.supp"),
}


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol = []  # (flavour, key, case, replay, text)
        self.stats, self.hits, self.samples = {}, set(), []
        self.stop = threading.Event()
        self.retried_hangs = 0
        self.budget_out = False
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.replays = os.path.join(ROOT, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.known = [k for k in load_known() if k["property"] == prop]
        self.known_seen = {}

    def match_known(self, flavour, key, text):
        for k in self.known:
            if re.fullmatch(k["key"], key) and re.search(k.get("text", ""), text):
                return k
        return None

    def add_violation(self, flavour, key, case, replay, text):
        with self.lock:
            k = self.match_known(flavour, key, text)
            if k:
                self.known_seen[k["id"]] = k
                return
            self.viol.append((flavour, key, case, replay, text))
            if len(self.viol) >= 40:
                self.stop.set()

    def parse(self, out):
        """reads the records; True when the process reached its end"""
        done = False
        if not os.path.exists(out):
            return done
        with self.lock:
            lines = open(out, errors="replace").read().split("\n")
        for l in lines:
            f = l.split("\t")
            if f[0] == "VIOL" and len(f) >= 5:
                self.add_violation(self.cur_flavour(out), f[1], int(f[2]), f[3], f[4])
            elif f[0] == "STAT" and len(f) == 3:
                with self.lock:
                    self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
            elif f[0] == "HIT" and len(f) == 2:
                with self.lock:
                    self.hits.add(f[1])
            elif f[0] == "DONE":
                done = True
            elif f[0] == "SAMPLE":
                with self.lock:
                    if len(self.samples) < 3:
                        self.samples.append(f[1].replace("\\n", "\n"))
        os.remove(out)
        return done

    @staticmethod
    def cur_flavour(out):
        return os.path.basename(out).split(".")[0]

    def signature(self, text):
        """(key, headline) of a sanitizer or crash report"""
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([\w:~<>]+)", text)
        own = next((f for f in frames if f.startswith("Cgl") or "vm::" in f or re.match(r"f?C\d\d|useOne", f) or f.startswith("outDups")), frames[0] if frames else "?")
        if "LeakSanitizer: detected memory leaks" in text:
            return "leak:" + own
        m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+).*", text)
        if m:
            return "%s:%s:%s" % (m.group(1), m.group(2), own)
        m = re.search(r"([\w/\.]+\.[ch]pp):(\d+):\d+: runtime error: (.*)", text)
        if m:
            return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[-\d.e+]{2,}|\d+", "N", m.group(3))[:80])
        m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)", text)
        if m:
            return "%s:%s" % (m.group(1), m.group(2))
        return None

    def command(self, flavour, exe, a, b, out, prog, cpu):
        cmd = [exe, "--property", self.prop, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out,
               "--progress", prog, "--replays", self.replays, "--cpu", str(cpu), "--flavour", flavour, "--tier", self.tier]
        if flavour == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=96", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no",
                   "--suppressions=" + os.path.join(ROOT, "tools", "valgrind.supp")] + cmd
        return cmd

    def chunk(self, flavour, exe, a, b):
        cpu = HANG_CPU * (20 if flavour == "valgrind" else 4 if flavour in ("asan", "tsan") else 1)
        tag = "%s.%d" % (flavour, a)
        out, prog, err = [os.path.join(self.tmp, tag + s) for s in (".out", ".prog", ".err")]
        at, crashes, hung = a, 0, -1
        env = dict(os.environ, **SAN_ENV)
        while at < b and not self.stop.is_set():
            with open(err, "wb") as ef:
                lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))) if flavour == "plain" else None
                p = subprocess.Popen(self.command(flavour, exe, at, b, out, prog, cpu), stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=self.tmp, preexec_fn=lim)
                while True:
                    try:
                        rc = p.wait(0.5)
                        break
                    except subprocess.TimeoutExpired:
                        if self.stop.is_set() or time.time() > self.deadline:
                            self.budget_out = self.budget_out or not self.stop.is_set()
                            p.kill()
                            p.wait()
                            self.parse(out)
                            return
                        if os.path.getsize(err) > 50_000_000:
                            p.kill()
            done = self.parse(out)
            if rc in (0, 1) and done:
                break
            text = open(err, errors="replace").read()
            ptxt = open(prog).read() if os.path.exists(prog) else ""
            m = re.match(r"\s*(\d+)", ptxt)
            case = int(m.group(1)) if m else at
            if rc == 3:
                with self.lock:
                    self.stats["no_driver"] = 1
                return
            if rc == 78:
                # a linear program that Clp does not finish: nothing Cgl can be blamed for, unless it is the rule
                with self.lock:
                    self.stats["linear_programs_clp_did_not_finish"] = n78 = self.stats.get("linear_programs_clp_did_not_finish", 0) + 1
                if n78 <= 4:
                    at = case + 1
                    continue
            if rc in (77, 78):
                if hung != case and os.environ.get("VERIF_NORETRY") is None:
                    hung, at, cpu = case, case, cpu * 3
                    self.retried_hangs += 1
                    continue
                key, head = "hang", "no return within %d s of CPU time, twice" % cpu
                cpu //= 3
            else:
                key = self.signature(text)
                if flavour == "valgrind" and rc == 96:
                    w = re.search(r"==\d+== (\w[^\n]*)\n==\d+==\s+at \w+: ([^\n(]+)", text)
                    key = "memcheck:" + (w.group(1)[:60] + ":" + w.group(2).strip() if w else "error")
                if key is None:
                    key = "crash:%s" % rc
                head = "process died with status %s" % rc
            rp = os.path.join(self.replays, "%s-%s-s%d-c%d.txt" % (self.prop, flavour, self.seed, case))
            with open(rp, "a") as f:
                f.write("property %s seed %d case %d flavour %s\nkey %s\n%s\n%s\n" % (self.prop, self.seed, case, flavour, key, head, text[-20000:]))
            self.add_violation(flavour, key, case, rp, head + " " + text[-6000:])
            if key == "hang" and self.viol:
                self.stop.set()
            crashes += 1
            at = case + 1
            if crashes >= 60:
                break

    def run(self, plan):
        t0 = time.time()
        flav = list(dict.fromkeys(x[0] for x in plan))
        exes = {}
        for fl in flav:
            exes[fl], dead = B.build(fl)
            if dead:
                self.stats["generators_not_buildable:" + ",".join(dead)] = 1
        self.build_s = time.time() - t0
        q = queue.Queue()
        jobs = []
        for fl, n, size in plan:
            for a in range(0, n, size):
                jobs.append((fl, exes[fl], a, min(n, a + size)))
        jobs.sort(key=lambda j: (flav.index(j[0]), j[2]))
        for j in jobs:
            q.put(j)

        # a slow machine cuts the workload short instead of running into the caller's limit
        budget = float(os.environ.get("VERIF_BUDGET", "480" if self.tier == "quick" else "36000"))

        self.deadline = time.time() + budget * 1.25

        def work():
            while not self.stop.is_set():
                if time.time() - t0 - self.build_s > budget:
                    self.budget_out = True
                    return
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    return
                self.chunk(*j)
        ts = [threading.Thread(target=work) for _ in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        shutil.rmtree(self.tmp, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PLANS[prop]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        fl, case = sys.argv[3].split(":")
        exe, _ = B.build(fl)
        r = Run(prop, tier, seed)
        c = r.command(fl, exe, int(case), int(case) + 1, "/dev/stdout", os.path.join(r.tmp, "p"), 1000) + ["--verbose", "1"]
        rc = subprocess.run(c, env=dict(os.environ, **SAN_ENV)).returncode
        shutil.rmtree(r.tmp, ignore_errors=True)
        sys.exit(rc)
    t0 = time.time()
    R = Run(prop, tier, seed)
    try:
        R.run(P[tier])
    except B.BuildError as e:
        print("cannot build the monitors: %s" % e)
        sys.exit(2)
    if R.stats.get("no_driver"):
        print("the monitor of %s is not available in this build" % prop)
        sys.exit(2)
    cases = R.stats.pop("cases", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(R.hits),
            "rule": P["rule"],
            "samples": R.samples or ["(no non-trivial case in this run)"],
            "observed": dict(sorted(R.stats.items())),
            "flavours": [x[0] for x in P[tier]],
            "exhaustive": False,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(R.viol),
    }
    if R.budget_out:
        ev["coverage"]["observed"]["stopped_by_time_budget"] = 1
    if R.retried_hangs:
        ev["coverage"]["observed"]["hang_retries"] = R.retried_hangs
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (prop, tier, seed, cases, len(R.hits), R.build_s, time.time() - t0))
    if os.environ.get("VERIF_SHOW"):
        for k, v in sorted(R.stats.items()):
            print("   ", k, v)
    for k in R.known_seen.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if R.viol:
        R.viol.sort(key=lambda v: (v[1], v[2]))
        by = {}
        for v in R.viol:
            by.setdefault(v[1], []).append(v)
        for k, vs in by.items():
            fl, key, case, rp, text = vs[0]
            print("  %s (%d cases, first: %s:%d): %s" % (key, len(vs), fl, case, text[:300].replace("\n", " ")))
        for k, vs in by.items():
            print("VIOLATION property=%s replay=%s" % (prop, vs[0][3]))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
