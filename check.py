#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on /repo's working tree
check.py --setup              build everything the checks need
check.py --replay FILE        run the failing case of a replay file again

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: violated.
Any other exit: no verdict (build failure, resource limit, too few events)."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
HOOKS = "--cfg vp_hooks -Awarnings"
TRIPLE = "x86_64-unknown-linux-gnu"
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP, signal.SIGFPE}
DEADLINE = {"quick": 800, "thorough": 3600}
T0 = time.time()

BUILDS = {
    # name: (toolchain, extra flags, cargo args, subdirectory, rustflags)
    "checked": dict(cargo=["cargo", "build", "--release"], dir="native", bin="release/vp", flags=""),
    "prod": dict(cargo=["cargo", "build", "--profile", "prod"], dir="prod", bin="prod/vp", flags=""),
    "asan": dict(cargo=["cargo", "+nightly", "build", "--profile", "prod", "--target", TRIPLE], dir="asan",
                 bin=TRIPLE + "/prod/vp", flags="--cfg vp_sanitized -Zsanitizer=address -Cforce-frame-pointers=yes"),
    "msan": dict(cargo=["cargo", "+nightly", "build", "-Zbuild-std", "--profile", "prod", "--target", TRIPLE], dir="msan",
                 bin=TRIPLE + "/prod/vp", flags="--cfg vp_sanitized -Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes"),
    "tsan": dict(cargo=["cargo", "+nightly", "build", "-Zbuild-std", "--profile", "prod", "--target", TRIPLE], dir="tsan",
                 bin=TRIPLE + "/prod/vp", flags="--cfg vp_sanitized -Zsanitizer=thread"),
    "miri": dict(cargo=["cargo", "+nightly", "miri", "run"], dir="miri", bin=None, flags=""),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"


class NoVerdict(Exception):
    pass


def env_for(b):
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, BUILDS[b]["dir"])
    e["RUSTFLAGS"] = (HOOKS + " " + BUILDS[b]["flags"]).strip()
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["MIRIFLAGS"] = MIRIFLAGS
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1"
    e["MSAN_OPTIONS"] = "exitcode=78:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1"
    return e


def digest():
    """Content of everything a build depends on: modification times are not trusted."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo")]
    roots += [os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock"), os.path.join(VERIF, "detrandom")]
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(glob.glob(r + "/**/*", recursive=True))
        for f in fs:
            if os.path.isfile(f) and "/target/" not in f:
                h.update(f.encode() + b"\0")
                h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build(b):
    d = os.path.join(TARGET, BUILDS[b]["dir"])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".vp_lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, want = os.path.join(d, ".vp_stamp"), digest()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            if os.path.exists(stamp):
                os.remove(stamp)
            for f in glob.glob(d + "/**/.fingerprint/*", recursive=True):
                if re.match(r"(onion-pir|vp-harness|getrandom)-", os.path.basename(f)):
                    shutil.rmtree(f, ignore_errors=True)
        cmd = BUILDS[b]["cargo"] + ["--offline", "--locked"]
        if b == "miri":
            cmd += ["--", "list"]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=env_for(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500, errors="replace")
        except subprocess.TimeoutExpired:
            raise NoVerdict("build %s took too long" % b)
        if p.returncode != 0:
            raise NoVerdict("build %s failed:\n%s" % (b, p.stdout[-4000:]))
        with open(stamp, "w") as f:
            f.write(want)


def build_all(names):
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(build, n) for n in names]:
            f.result()


def command(b, args):
    if b == "miri":
        return BUILDS[b]["cargo"] + ["-q", "--offline", "--locked", "--"] + args
    return [os.path.join(TARGET, BUILDS[b]["dir"], BUILDS[b]["bin"])] + args


class Run:
    """One monitored process."""

    def __init__(self, b, prop, tier, seed, first, cases, jobs=8, kind=None, limit=None, case_limit=90):
        self.b, self.prop, self.tier, self.seed, self.first, self.cases, self.kind = b, prop, tier, seed, first, cases, kind
        name = "%s-%s-%s-%s-%d" % (prop, b, tier, kind or "all", first)
        tmp = os.path.join(TARGET, "run")
        os.makedirs(tmp, exist_ok=True)
        rep, keys = os.path.join(tmp, name + ".json"), os.path.join(tmp, name + ".keys")
        for f in (rep, keys):
            if os.path.exists(f):
                os.remove(f)
        limit = limit or DEADLINE[os.environ.get("VP_TIER", "quick")]
        self.args = ["run", prop, "--tier", tier, "--seed", str(seed), "--first", str(first), "--cases", str(cases)]
        if kind:
            self.args += ["--kind", kind]
        extra = ["--jobs", str(jobs), "--time-limit", str(int(limit)), "--case-limit", str(int(case_limit)), "--report", rep, "--keys", keys]
        self.timeout = False
        p = subprocess.Popen(command(b, self.args + extra), cwd=HARNESS, env=env_for(b), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            self.out, self.err = p.communicate(timeout=limit + case_limit + 60)
        except subprocess.TimeoutExpired:
            self.timeout = True
            os.killpg(p.pid, signal.SIGKILL)
            self.out, self.err = p.communicate()
        self.rc = p.returncode
        self.report = json.load(open(rep)) if os.path.exists(rep) else {}
        self.keys = set()
        if os.path.exists(keys):
            raw = open(keys, "rb").read()
            self.keys = {raw[i:i + 8] for i in range(0, len(raw), 8)}
        for f in (rep, keys):
            if os.path.exists(f):
                os.remove(f)

    def fails(self):
        return re.findall(r"^FAIL case=(\d+) kind=(\S+) (.*)$", self.out, re.M)

    def crashed(self):
        s = -self.rc if self.rc < 0 else self.rc - 128 if self.rc > 128 else 0
        return s if s in {int(x) for x in CRASH} else 0

    def hung(self):
        m = re.search(r"^INCONCLUSIVE case=(\d+) did not end", self.out, re.M)
        return int(m.group(1)) if m else None

    def sanitizer(self):
        """A report of a sanitizer or interpreter about the code under test."""
        if self.b == "asan":
            m = re.search(r"ERROR: AddressSanitizer: .*", self.err)
            return m.group(0) if m else None
        if self.b == "tsan":
            for blk in re.split(r"^={10,}$", self.err, flags=re.M):
                if "WARNING: ThreadSanitizer" in blk and (REPO + "/src") in blk:
                    m = re.search(r"SUMMARY: .*", blk)
                    return m.group(0) if m else "ThreadSanitizer report"
        if self.b == "msan":
            # used by, or created by, the code under test
            m = re.search(r"WARNING: MemorySanitizer: (.*)", self.err)
            if m and REPO + "/src" in self.err[m.start():]:
                at = re.search(re.escape(REPO) + r"/src/\S+", self.err[m.start():])
                return "MemorySanitizer: %s, %s" % (m.group(1), at.group(0))
        if self.b == "miri":
            m = re.search(r"error: Undefined Behavior: .*(?:\n.*){0,3}", self.err)
            if m:
                return m.group(0)
        return None

    def ran(self):
        """The sanitizer's runtime started at all."""
        if self.b not in ("tsan", "msan"):
            return True
        return self.rc in (0, 1, 3, 66, 78) or not re.search(r"FATAL: (Thread|Memory)Sanitizer", self.err)

    def verdict(self, only_ub=False):
        """list of (case, message) or [] ; raises NoVerdict"""
        s = self.sanitizer()
        if s:
            return [(self.first, "%s (cases %d..%d)" % (s.replace("\n", " "), self.first, self.first + self.cases))]
        if self.crashed():
            tail = (self.err.strip().splitlines() or [""])
            tail = [l for l in tail if "panicked" in l or "unsafe precondition" in l or "overflow" in l or "alloc" in l] or tail[-1:]
            return [(self.first, "the code under test ended with signal %d: %s (cases %d..%d)" % (self.crashed(), tail[-1][:300], self.first, self.first + self.cases))]
        f = [(int(c), "%s: %s" % (k, m)) for c, k, m in self.fails()]
        if only_ub:
            f = [x for x in f if re.search(r"panicked at " + re.escape(REPO) + "/", x[1])]
            if f:
                return f
            if self.rc in (0, 1):
                return []
        if f:
            return f
        if self.rc == 0:
            return []
        if self.b == "tsan" and self.rc == 66:
            return []  # reports, none of which involves the code under test
        if self.b == "msan" and self.rc == 78:
            return []
        h = self.hung()
        if h is not None:
            again = Run(self.b, self.prop, self.tier, self.seed, h, 1, 1, self.kind, limit=240, case_limit=240)
            if again.hung() is not None:
                return [(h, "case did not end in 90 s, nor alone in 240 s, where every case takes seconds")]
            v = again.verdict(only_ub)
            if v:
                return v
        raise NoVerdict("%s build ended with %d:\n%s\n%s" % (self.b, self.rc, self.out[-1500:], self.err[-1500:]))


def known(prop):
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def plan(prop, tier, seed):
    """The runs that decide a property: (build, prop, tier, first, cases, kind, jobs, only_ub)"""
    q, t, _ = CASES[prop]  # cases in the quick and the thorough tier; the third is what sanitizer runs are counted from
    n = q if tier == "quick" else t
    runs = [("checked", prop, tier, 0, n, None, 8, False), ("prod", prop, tier, 10**9, n, None, 8, False)]
    if prop == "C21":
        for p, (_, _, a) in sorted(CASES.items()):
            m = max(16, a // 12) if tier == "quick" else a * 2
            runs.append(("asan", p, tier, 2 * 10**9, m, None, 8, p != "C21"))
        for p, (_, _, a) in sorted(CASES.items()):
            m = max(8, a // 40) if tier == "quick" else a
            runs.append(("msan", p, tier, 3 * 10**9, m, None, 8, p != "C21"))
        k = 24 if tier == "quick" else 400
        runs += [("miri", "C21", "tiny", i, 1, None, 1, False) for i in range(k)]
        if tier == "thorough":
            runs += [("miri", p, "tiny", i, 1, None, 1, True) for p in ("C10", "C11", "C12", "C13", "C14", "C15", "C17", "C19", "C20", "C24") for i in range(6)]
    if prop == "C22":
        for kind, m in (("concurrent", 6), ("parallel", 4), ("storm", 4), ("histories", 4), ("interoperate", 4)):
            runs.append(("tsan", prop, tier, 2 * 10**9, m if tier == "quick" else 30 * m, kind, 4, False))
    return runs


def main(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VP_TIER"] = tier
    runs = plan(prop, tier, seed)
    builds = list(dict.fromkeys(r[0] for r in runs))
    notes = []
    os.makedirs(EVID, exist_ok=True)
    try:
        build_all([b for b in builds if b in ("checked", "prod", "asan", "miri")])
    except NoVerdict as e:
        return no_verdict(prop, str(e))
    for san in [b for b in ("tsan", "msan") if b in builds]:
        try:
            build(san)
        except NoVerdict as e:
            # needs the standard library's sources to build: reported, not judged
            notes.append("%s build not available: %s" % (san, str(e)[:300]))
            runs = [r for r in runs if r[0] != san]
    built = time.time() - T0
    todo = []
    wide = [r for r in runs if r[6] > 1]
    narrow = [r for r in runs if r[6] == 1]

    def one(r):
        b, p, t, first, cases, kind, jobs, ub = r
        if DEADLINE[tier] - (time.time() - T0) < 30:
            return r, None, []
        x = Run(b, p, t, seed, first, cases, jobs, kind, limit=max(30, DEADLINE[tier] - (time.time() - T0)), case_limit=600 if b == "miri" else 90)
        if b == "miri" and x.timeout:
            return r, None, []
        if not x.ran():
            return r, None, []
        return r, x, x.verdict(ub)

    done, bad, errors = [], [], []
    for r in wide:
        try:
            r, x, v = one(r)
            todo.append((r, x, v))
        except NoVerdict as e:
            errors.append(str(e))
        if todo and todo[-1][2]:
            break
    if narrow and not any(v for _, _, v in todo):
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(one, r) for r in narrow]:
                try:
                    todo.append(f.result())
                except NoVerdict as e:
                    errors.append(str(e))
    kn = known(prop)
    seen_known = set()
    skipped = 0
    for r, x, v in todo:
        if x is None:
            skipped += 1
            continue
        done.append((r, x))
        for case, msg in v:
            hit = [w for rx, w in kn if rx.search(msg)]
            if hit:
                seen_known.add(hit[0])
            else:
                bad.append((r, case, msg))
    if skipped:
        notes.append("%d of %d planned runs not observed (time or a sanitizer runtime that could not start)" % (skipped, len(runs)))
    ev, evals, keys, events, kinds, samples, per = {}, 0, set(), {}, {}, [], []
    rule = ""
    for r, x in done:
        rep = x.report
        if not rep:
            continue
        if x.prop == prop:
            rule = rep["rule"]
        evals += rep["evaluations"]
        keys |= {x.prop.encode() + k for k in x.keys}
        for k, n in rep["events"].items():
            events[k] = events.get(k, 0) + n
        for k, n in rep["cases_by_kind"].items():
            k = k if x.prop == prop else x.prop + "/" + k
            kinds[k] = kinds.get(k, 0) + n
        if x.prop == prop:
            samples += rep["samples"][: 12 if len(samples) < 12 else 2]
        per.append({"build": x.b, "workload": x.prop, "cases": rep["cases"], "evaluations": rep["evaluations"], "first_case": rep["first_case"], "wall_s": rep["wall_s"]})
    observed = {}
    for p in per:
        o = observed.setdefault(p["build"], {"processes": 0, "cases": 0, "evaluations": 0})
        o["processes"] += 1
        o["cases"] += p["cases"]
        o["evaluations"] += p["evaluations"]
    if len(events) > 400:
        events = dict(sorted(events.items(), key=lambda kv: -kv[1])[:400])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "rule": rule, "samples": samples[:20],
            "observed_by_build": observed, "cases_by_kind": kinds, "events": events,
            "build_s": round(built, 1), "notes": notes,
        },
        "assumptions": ["held on the executions observed; nothing is claimed of inputs the workload did not produce",
                        "the code's thread_rng draws are seeded per case by /verif/detrandom, so every case replays"],
        "wall_s": round(time.time() - T0, 1), "violations": len(bad),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if bad:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for r, case, msg in bad[:5]:
            path = os.path.join(EVID, "replay", "%s-%s-%d.json" % (prop, r[0], case))
            single = " (cases " not in msg
            with open(path, "w") as f:
                json.dump({"property": prop, "workload": r[1], "build": r[0], "tier": r[2], "seed": seed, "case": case,
                           "cases": 1 if single else r[4], "kind": r[5], "message": msg,
                           "replay": "python3 %s/check.py --replay %s" % (VERIF, path)}, f, indent=1)
            print("%s build, case %d: %s" % (r[0], case, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return no_verdict(prop, "\n".join(errors[:3]))
    if not done or evals == 0:
        return no_verdict(prop, "nothing observed")
    print("%s held: %d evaluations, %d distinct, %s, %.0f s (build %.0f s)" % (prop, evals, len(keys), " ".join("%s:%d" % (b, o["cases"]) for b, o in observed.items()), time.time() - T0, built))
    for n in notes:
        print("note: " + n)
    return 0


def no_verdict(prop, why):
    print("NO VERDICT property=%s\n%s" % (prop, why))
    return 3


def replay(path):
    r = json.load(open(path))
    build(r["build"])
    x = Run(r["build"], r["workload"], r["tier"], r["seed"], r["case"], r["cases"], 1 if r["cases"] == 1 else 8, r["kind"], limit=900, case_limit=600)
    sys.stdout.write(x.out)
    sys.stderr.write(x.err[-6000:])
    v = x.verdict(r["workload"] != r["property"])
    for c, m in v:
        print("case %d: %s" % (c, m[:600]))
    return 1 if v else 0


# cases per build: quick, thorough
CASES = json.load(open(os.path.join(VERIF, "cases.json")))

if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            build_all(["checked", "prod"])
            # The checks that use these build them again where this fails.
            for b in ("asan", "miri", "tsan", "msan"):
                try:
                    build(b)
                except NoVerdict as e:
                    print("setup: %s" % e)
            sys.exit(0)
        if len(a) == 2 and a[0] == "--replay":
            sys.exit(replay(a[1]))
        if not a or a[0] not in CASES:
            print(__doc__)
            sys.exit(2)
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(a[0], tier if tier == "thorough" else "quick"))
    except NoVerdict as e:
        sys.exit(no_verdict(a[0], str(e)))
