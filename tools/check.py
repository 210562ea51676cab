#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's current tree, runs them
sharded over all cores under sanitizers, and turns what the monitors saw into a
verdict and an evidence file.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--scale X]
                [--replay FILE] [--keep]
Exit: 0 held on everything explored, 1 violation (with a VIOLATION line),
      3 the harness could not be built, 4 inconclusive (nothing observed, or a
      run that could not be completed).
"""
import argparse, collections, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import checks as C  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CASE_TIMEOUT = 60      # seconds one case may take before it counts as stuck
RERUN_TIMEOUT = 150     # ... when it is run again alone
MAX_RESTARTS = 6        # per shard
ENOUGH = 180            # seconds after which a quick check that has found a violation stops looking for more
NCPU = os.cpu_count() or 4

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:strict_string_checks=1:hard_rss_limit_mb=3500:"
                    "detect_container_overflow=1:allow_user_segv_handler=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=98:report_thread_leaks=0:history_size=4:second_deadlock_stack=1",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop, spec):
    bins = {}
    by_config = collections.OrderedDict()
    for run in spec["runs"]:
        by_config.setdefault(run["config"], []).append(run["harness"])
    for config, names in by_config.items():
        names = sorted(set(names))
        out = os.path.join(BUILD, config)
        g = sh([sys.executable, os.path.join(VERIF, "tools/gen_ninja.py"), out, config] + names)
        if g.returncode:
            print(g.stdout)
            return None
        n = sh(["ninja", "-C", out, "-j", str(NCPU)])
        if n.returncode:
            print(n.stdout[-6000:])
            return None
        for x in names:
            bins[(x, config)] = os.path.join(out, "bin", x)
    return bins


class Shard(threading.Thread):
    """Runs one shard of one harness, restarting behind cases that kill it."""

    def __init__(self, binary, env, args, work, label, shard, nshards, wrapper=(), enough=None):
        super().__init__()
        self.enough = enough
        self.wrapper, self.timeout = list(wrapper), CASE_TIMEOUT * (4 if wrapper else 1)
        self.binary, self.env, self.args, self.work = binary, env, args, work
        self.label, self.shard, self.nshards = label, shard, nshards
        self.failures, self.prints, self.samples = [], set(), []
        self.evaluations, self.tallies = 0, collections.Counter()
        self.crashes, self.stuck, self.done, self.error = [], [], False, None
        self.races = []

    def status(self, path):
        try:
            raw = open(path, "rb").read()
            group = raw[:64].split(b"\0")[0].decode()
            index = int.from_bytes(raw[64:72], "little")
            started = int.from_bytes(raw[72:80], "little")
            desc = raw[80:].split(b"\0")[0].decode(errors="replace")
            return group, index, started, desc
        except (OSError, ValueError):
            return "", 0, 0, ""

    def run(self):
        try:
            self.run_all()
        except Exception as e:  # a bug of the runner is not a verdict
            self.error = "runner: %r" % e

    def run_all(self):
        resume = None
        for attempt in range(MAX_RESTARTS + 1):
            base = os.path.join(self.work, "%s.%d.%d" % (self.label, self.shard, attempt))
            out, status, err = base + ".out", base + ".status", base + ".err"
            cmd = self.wrapper + [self.binary, "--out", out, "--status", status, "--shard",
                   "%d/%d" % (self.shard, self.nshards)] + self.args
            if resume:
                cmd += ["--resume-after", resume[0], str(resume[1])]
            with open(err, "wb") as ef:
                p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=self.env)
                last, since, stuck, stopped = None, time.monotonic(), False, False
                while True:
                    try:
                        rc = p.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    if self.enough and self.enough(out, err):
                        stopped = True
                        p.kill()
                        rc = p.wait()
                        break
                    now = self.status(status)[:3]
                    if now != last:
                        last, since = now, time.monotonic()
                    elif time.monotonic() - since > self.timeout:
                        stuck = True
                        p.kill()
                        rc = p.wait()
                        break
            complete = self.parse(out)
            text = open(err, "rb").read().decode(errors="replace")
            self.races += race_reports(text)
            if stopped:
                self.done = True
                return
            if complete and rc in (0, 1, 98):
                self.done = True
                return
            group, index, started, desc = self.status(status)
            if not started:
                self.error = "harness did not start (exit %s): %s" % (rc, text[-1500:])
                return
            if stuck:
                self.stuck.append((group, index, desc))
                if len(self.stuck) > 1:
                    break
            else:
                self.crashes.append((group, index, desc, rc, text))
            resume = (group, index)
        # Gave up after many crashes: the crashes themselves are the verdict.
        self.done = True

    def parse(self, out):
        complete = False
        try:
            lines = open(out, errors="replace").read().split("\n")
        except OSError:
            return False
        for line in lines:
            f = line.split("\t")
            if f[0] == "F" and len(f) >= 6:
                self.failures.append((f[1], int(f[2]), f[3], f[4], f[5]))
            elif f[0] == "N":
                self.prints.add(f[1])
            elif f[0] == "S" and len(f) >= 4:
                self.samples.append("%s[%s] %s" % (f[1], f[2], f[3]))
            elif f[0] == "E":
                self.evaluations += int(f[1])
            elif f[0] == "T":
                self.tallies[f[1]] += int(f[2])
            elif f[0] == "D":
                complete = True
        return complete


class Enough:
    """Says when a run that has found a violation has run for long enough."""

    def __init__(self, start, known, only):
        self.start, self.known, self.only = start, known, only
        self.found, self.looked, self.lock = False, {}, threading.Lock()

    def __call__(self, out, err):
        now = time.time()
        if now < self.start + ENOUGH:
            return False
        with self.lock:
            if not self.found and now - self.looked.get(out, 0) > 10:
                self.looked[out] = now
                try:
                    for line in open(out, errors="replace"):
                        f = line.split("\t")
                        if f[0] == "F" and len(f) >= 6 and f[3].startswith(self.only) and slug("%s/%s" % (f[1], f[3])) not in self.known:
                            self.found = True
                            break
                    if not self.found and not self.only:
                        self.found = "WARNING: ThreadSanitizer" in open(err, errors="replace").read()
                except OSError:
                    pass
            return self.found


def race_reports(text):
    """ThreadSanitizer reports, each reduced to the function involved, with the
    case it happened in (announced by the harness after the report)."""
    out = []
    for m in re.finditer(r"WARNING: ThreadSanitizer:.*?(?=\n={10,})", text, re.S):
        block = m.group(0)
        kind = re.search(r"ThreadSanitizer: ([^\(\n]+)", block).group(1).strip()
        funcs = re.findall(r"#\d+ (.+?) (?:/|<null>|\()", block)
        names = [x.group(1) for x in (re.search(r"(distributed_point_functions::(?:[A-Z]\w+::)*[A-Z]\w+)", f) for f in funcs
                                      if "vh::" not in f) if x]
        key = kind + ": " + (names[0] if names else (funcs[0] if funcs else "?"))
        after = re.search(r"VH-REPORT-IN (\w+) (\d+)", text[m.end():m.end() + 400])
        out.append((key[:200], block[:3000], after.group(1) if after else "race", int(after.group(2)) if after else 0))
    return out


def crash_kind(rc, text):
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        return "UBSan: " + re.sub(r"\d+", "N", m.group(1))[:120]
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        return "ASan: " + m.group(1)
    if re.search(r"hard rss limit exhausted", text):
        return "memory limit exhausted"
    m = re.search(r"CHECK-FAILED ([^\n]*)", text) or re.search(r"Check failed: ([^\n]*)", text)
    if m:
        return "CHECK failed: " + m.group(1)[:120]
    if rc is not None and rc < 0:
        return "signal %d" % -rc
    return "exit %s" % rc


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.:/-]+", "_", s)[:160]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property
    spec = dict(C.CHECKS[prop])
    if a.replay:
        a.tier = json.load(open(a.replay))["tier"]
    spec["runs"] = [r for r in spec["runs"] if r.get("tier", a.tier) == a.tier]
    t0 = time.time()
    bins = build(prop, spec)
    if bins is None:
        print("ERROR: build failed for %s" % prop)
        return 3
    t_build = time.time() - t0
    env = dict(os.environ)
    env.update(SAN_ENV)

    if a.replay:
        return replay(a.replay, bins, env)

    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(a, prop, spec, bins, env, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path, bins, env):
    r = json.load(open(path))
    b = bins[(r["harness"], r["config"])]
    cmd = r.get("wrapper", []) + [b, "--seed", str(r["seed"]), "--tier", r["tier"], "--group", r["group"], "--index", str(r["index"])]
    print("+ " + " ".join(cmd))
    rc = subprocess.run(cmd, env=env).returncode
    print("exit", rc)
    return 1 if rc else 0


def run(a, prop, spec, bins, env, work, t0, t_build):
    violations = collections.OrderedDict()  # key -> dict
    evaluations, prints, samples, tallies, errors = 0, set(), [], collections.Counter(), []

    def add(key, run, group, index, msg, desc, extra=""):
        key = slug(key)
        v = violations.get(key)
        if v:
            v["count"] += 1
            return
        violations[key] = {"key": key, "harness": run["harness"], "config": run["config"], "wrapper": list(run.get("wrapper", ())), "group": group,
                           "index": index, "message": msg, "case": desc, "details": extra[-6000:], "count": 1,
                           "seed": a.seed, "tier": a.tier, "property": prop}

    reruns = 0
    known_keys = {k for k, _ in load_known(prop)}
    for i, r in enumerate(spec["runs"]):
        binary = bins[(r["harness"], r["config"])]
        n = r.get("shards", NCPU)
        scale = a.scale * r.get("scale", {}).get(a.tier, 1.0)
        args = ["--seed", str(a.seed), "--tier", a.tier, "--scale", str(scale)]
        if r.get("group"):
            args += ["--group", r["group"]]
        e = dict(env)
        e.update(r.get("env", {}))
        if violations and time.time() - t0 > ENOUGH and a.tier == "quick" and any(k not in known_keys for k in violations):
            break
        enough = Enough(t0 + t_build, known_keys, r.get("only", "")) if a.tier == "quick" else None
        shards = [Shard(binary, e, args, work, "%s-%d" % (r["harness"], i), k, n, r.get("wrapper", ()), enough) for k in range(n)]
        for s in shards:
            s.start()
        for s in shards:
            s.join()
        for s in shards:
            evaluations += s.evaluations
            prints |= {r["config"] + p for p in s.prints}
            samples += s.samples if r["config"] != "scalar" else []
            for k, v in s.tallies.items():
                tallies["%s/%s" % (r["config"], k) if len(spec["runs"]) > 1 else k] += v
            for group, index, key, msg, desc in s.failures:
                # A run that only lends its workload to another monitor counts
                # what that monitor says, not the workload's own findings.
                if key.startswith(r.get("only", "")):
                    add("%s/%s" % (group, key), r, group, index, msg, desc)
            if "only" in r:
                s.crashes, s.stuck = [], []
            for group, index, desc, rc, text in s.crashes:
                kind = crash_kind(rc, text)
                if rc == -9:
                    # Killed from outside (memory): run the case once more alone.
                    p = rerun(r, binary, a, e, group, index)
                    if p is None or p.returncode in (0, 1):
                        errors.append("shard killed, not reproduced: %s[%d]" % (group, index))
                        continue
                    kind = crash_kind(p.returncode, p.stdout)
                    text = p.stdout
                add("%s/crash" % group, r, group, index, kind, desc, text)
            for group, index, desc in s.stuck:
                if slug("%s/hang" % group) in violations:
                    continue
                if reruns >= 3:
                    errors.append("case did not end in time: %s[%d]" % (group, index))
                    continue
                reruns += 1
                p = rerun(r, binary, a, e, group, index)
                if p is None:
                    add("%s/hang" % group, r, group, index, "case does not end", desc)
                elif p.returncode not in (0, 1):
                    add("%s/crash" % group, r, group, index, crash_kind(p.returncode, p.stdout), desc, p.stdout)
                elif p.returncode == 0:
                    errors.append("case was slow but ended when run alone: %s[%d]" % (group, index))
            for key, block, group, index in s.races:
                add("race/" + key, r, group, index, key, "", block)
            if s.error:
                errors.append(s.error)
            elif not s.done:
                errors.append("shard %d of %s incomplete" % (s.shard, r["harness"]))

    known = load_known(prop)
    reported, matched = [], set()
    for key, v in violations.items():
        k = next((x for x in known if x[0] == key), None)
        if k:
            matched.add(k)
        else:
            reported.append(v)

    missing = [g for g in spec.get("must_observe", []) if not any(t.endswith(g) and n for t, n in tallies.items())]
    if missing and not reported:
        errors.append("never observed: " + ", ".join(missing))
    if evaluations == 0 and not violations:
        errors.append("nothing observed")

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    per_group = collections.OrderedDict()
    for s in samples:
        g = s.split("[")[0]
        per_group.setdefault(g, []).append(s)
    flat = []
    for k in range(3):
        for g in per_group.values():
            if k < len(g):
                flat.append(g[k])
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(prints), "rule": spec["rule"],
            "samples": flat[:24], "observed": dict(sorted(tallies.items())),
            "configs": sorted({r["config"] for r in spec["runs"]}), "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []) + C.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": len(reported),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in reported[:10]:
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", v["key"])[:140]))
            json.dump(v, open(path, "w"), indent=1)
            print("  %s (x%d): %s | case: %s" % (v["key"], v["count"], v["message"][:400], v["case"][:300]))
            if v["details"]:
                print("    " + v["details"][:1500].replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 4
    print("%s: held on %d executions (%d distinct), %.0fs (build %.0fs)" %
          (prop, evaluations, len(prints), time.time() - t0, t_build))
    return 0


def rerun(r, binary, a, env, group, index):
    cmd = list(r.get("wrapper", ())) + [binary, "--seed", str(a.seed), "--tier", a.tier, "--group", group, "--index", str(index)]
    try:
        return sh(cmd, env=env, timeout=RERUN_TIMEOUT)
    except subprocess.TimeoutExpired:
        return None


if __name__ == "__main__":
    sys.exit(main())
