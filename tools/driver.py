"""Driver of the checks: builds the monitors from /repo's working tree, runs them under a supervisor,
turns what they observed into a verdict and an evidence file.

Verdicts: 0 held on what was observed, 1 violated (with a replay), 2 inconclusive.
"""
import glob
import json
import os
import resource
import shutil
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, os.path.join(ROOT, "tools"))
import plan as P  # noqa: E402
import gen  # noqa: E402
import probes  # noqa: E402


class Inconclusive(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------
# building

def clear_fingerprints(target):
    """Cargo judges freshness by modification times, which a restored tree can fool."""
    for pat in ("ethereum_ssz*", "ethereum-ssz*"):
        for prof in ("debug", "release", "*/debug", "*/release"):
            for sub in (".fingerprint", "build"):
                for d in glob.glob(os.path.join(target, prof, sub, pat)):
                    shutil.rmtree(d, ignore_errors=True)


class Build:
    """One cargo build of a harness crate."""

    def __init__(self, crate, profile=None, mode="dev"):
        self.crate, self.profile, self.mode = crate, profile, mode
        self.dir = os.path.join(ROOT, "harness", crate)
        self.externs = {}
        self.deps_dir = None
        self.bin = None

    @property
    def name(self):
        return "-".join(x for x in (self.crate, self.profile, self.mode) if x)

    def cargo(self, env):
        e = dict(os.environ)
        e["CARGO_TARGET_DIR"] = TARGET
        e["CARGO_NET_OFFLINE"] = "true"
        e.pop("RUSTFLAGS", None)
        cmd = ["cargo"]
        tail = []
        if self.mode == "release":
            tail = ["--release"]
        elif self.mode == "asan":
            cmd = ["cargo", "+nightly"]
            e["RUSTFLAGS"] = "-Zsanitizer=address"
            e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "asan")
            tail = ["--target", "x86_64-unknown-linux-gnu"]
        e.update(env)
        return subprocess.run(
            cmd + ["build", "--offline", "--message-format=json"] + tail,
            cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def run(self, env):
        """Returns (ok, [compiler messages of errors])."""
        r = self.cargo(env)
        errors = []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m.get("filenames", []):
                    if f.endswith((".rlib", ".so")):
                        self.externs[m["target"]["name"].replace("-", "_")] = f
                    if f.endswith(".rlib"):
                        self.deps_dir = os.path.dirname(f) if "/deps" in f else os.path.join(
                            os.path.dirname(f), "deps")
                if m.get("executable") and m["target"]["kind"] == ["bin"]:
                    self.bin = m["executable"]
            elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errors.append((m["target"]["name"], m["message"]))
        if r.returncode == 0 and self.bin:
            # keep it: the next profile of the same crate overwrites the file
            keep = os.path.join(TARGET, "bin", self.name)
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copy2(self.bin, keep)
            self.bin = keep
            return True, []
        if not errors:
            errors = [("cargo", {"rendered": r.stderr[-3000:], "spans": []})]
        return False, errors


def generate(profile, seed, extra, without=()):
    os.makedirs(os.path.join(TARGET, "gen"), exist_ok=True)
    rs = os.path.join(TARGET, "gen", profile + ".rs")
    g = gen.generate(profile, seed, extra)
    g.drop(set(without))
    text = gen.emit(g)
    try:
        with open(rs) as f:
            old = f.read()
    except OSError:
        old = None
    if old != text:
        with open(rs, "w") as f:
            f.write(text)
    return rs, g


def build_reg(b, seed, extra, result):
    """Build the registry; definitions that do not compile are set apart and reported."""
    rs, g = generate(b.profile, seed, extra)
    ok, errors = b.run({"VERIF_GEN": rs})
    result["definitions"] = len(g.mods)
    result["registered_types"] = len(g.plain)
    if ok:
        return
    if any(t not in ("reg-run",) for t, _ in errors):
        raise Inconclusive("the code under test or the harness does not build:\n" +
                           "\n".join(m.get("rendered") or "" for _, m in errors)[:3000])
    # Which definitions? Compile each one alone against the built libraries.
    bad = probes.failing_modules(b, g, ROOT)
    if not bad:
        raise Inconclusive("the registry does not build:\n" +
                           "\n".join(m.get("rendered") or "" for _, m in errors)[:3000])
    result["rejected_definitions"] = bad
    rs, g = generate(b.profile, seed, extra, without=bad)
    ok, errors = b.run({"VERIF_GEN": rs})
    if not ok:
        raise Inconclusive("the registry does not build without the rejected definitions:\n" +
                           "\n".join(m.get("rendered") or "" for _, m in errors)[:3000])


# ------------------------------------------------------------------------------------------
# running

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def recorder(path):
    """Active (unit index, case, started ms) entries of the flight recorder."""
    try:
        raw = open(path, "rb").read()
    except OSError:
        return []
    out = []
    for i in range(0, len(raw) - 31, 32):
        act, unit, case, ms = struct.unpack("<4Q", raw[i:i + 32])
        if act:
            out.append((unit, case, ms))
    return out


def child(cmd, env, timeout, rec=None, hang_ms=None):
    """Run; returns (status, stderr tail) where status is an int, or 'hang', or 'timeout'."""
    t0 = time.time()
    err = open(os.path.join(TARGET, "stderr.log"), "w+b")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, preexec_fn=limits)
    status = None
    while status is None:
        try:
            status = p.wait(timeout=1.0)
        except subprocess.TimeoutExpired:
            el = time.time() - t0
            if el > timeout:
                status = "timeout"
            elif rec and hang_ms:
                now = el * 1000
                if any(now - ms > hang_ms for _, _, ms in recorder(rec)):
                    status = "hang"
    if not isinstance(status, int):
        p.kill()
        p.wait()
    err.seek(0, 2)
    n = err.tell()
    err.seek(max(0, n - 4000))
    tail = err.read().decode("utf-8", "replace")
    err.close()
    return status, tail


SIGNALS = {-6: "aborted", -11: "segmentation fault", -7: "bus error", -4: "illegal instruction",
           -8: "arithmetic fault", -5: "trap", -9: "killed"}
HANG_MS = 120_000


def run_monitor(prop, b, tier, seed, scale, cap):
    """One supervised run of a monitor binary. Returns its result with what the supervisor saw."""
    out = os.path.join(TARGET, "out-%s.json" % b.name)
    rec = os.path.join(TARGET, "rec-%s" % b.name)
    for f in (out, rec):
        if os.path.exists(f):
            os.remove(f)
    base = [b.bin, "--prop", prop, "--seed", str(seed), "--tier", tier, "--scale", str(scale)]
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1"
    timeout = cap * 1.5 + 240
    status, tail = child(base + ["--out", out, "--rec", rec, "--cap", str(cap)], env, timeout,
                         rec, HANG_MS)
    if status == 0:
        return json.load(open(out))
    if isinstance(status, int) and status > 0 and status != 101:
        raise Inconclusive("the monitor ended with %s: %s" % (status, tail))
    active = recorder(rec)
    r = subprocess.run(base + ["--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, env=env)
    names = [l.split("\t")[0] for l in r.stdout.splitlines()]
    found = []
    for unit, case, _ in sorted(set(active))[:16]:
        if unit >= len(names):
            continue
        s, t = child(base + ["--unit", names[unit], "--case", str(case), "--out", out], env,
                     HANG_MS / 1000)
        if s == 0:
            one = json.load(open(out))
            found += one["violations"]
        elif s == "timeout" or (isinstance(s, int) and s < 0):
            what = "does not return" if s == "timeout" else SIGNALS.get(s, "signal %d" % -s)
            if s == -9:
                continue        # most likely memory pressure on the machine: not a verdict
            found.append({"signature": "%s|%s" % (names[unit], what), "unit": names[unit],
                          "case": case,
                          "detail": "the process running this case alone %s: %s" % (
                              what if s == "timeout" else "died (%s)" % what, t[-600:])})
    if not found:
        raise Inconclusive("the monitor ended with %s and no active case reproduces it: %s"
                           % (status, tail))
    return {"died": str(status), "violations": found, "harness_errors": [], "evaluations": 0,
            "distinct": 0, "counters": {}, "maxima": {}, "tags": {}, "samples": [], "units": 0,
            "capped": True, "chunks": 0, "chunks_done": 0, "wall_s": 0, "unit_names": []}


# ------------------------------------------------------------------------------------------
# known findings

def known(prop):
    out = []
    try:
        lines = open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")).read().splitlines()
    except OSError:
        return out
    for l in lines:
        # known: property=<id> signature=<exact signature> :: <what fails>
        if l.startswith("known: property=%s signature=" % prop):
            sig, _, what = l.split(" signature=", 1)[1].partition(" :: ")
            out.append((sig, what))
    return out


# ------------------------------------------------------------------------------------------
# verdict

def check(prop, tier, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    # one check at a time in a target directory
    import fcntl
    lock = open(os.path.join(TARGET, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    spec = P.PLAN[prop]
    runs, violations, problems = [], [], []
    b = None
    clear_fingerprints(TARGET)
    for step in spec["steps"](tier):
        info = {"monitor": step.label(), "mode": step.mode}
        try:
            if step.kind == "probes":
                if not b.deps_dir:
                    raise Inconclusive("no libraries to compile against")
                v, cov = probes.must_reject(ROOT, b)
                info.update(cov)
                violations += v
                runs.append(info)
                continue
            b = Build(step.crate, step.profile, step.mode)
            tb = time.time()
            if step.crate == "reg":
                build_reg(b, seed + step.seed_shift, step.extra, info)
            else:
                ok, errors = b.run({})
                if not ok:
                    raise Inconclusive("does not build:\n" + "\n".join(
                        m.get("rendered") or "" for _, m in errors)[:3000])
            info["build_s"] = round(time.time() - tb, 1)
            for name in info.get("rejected_definitions", {}):
                d = info["rejected_definitions"][name]
                if prop in ("C08", "C15"):
                    violations.append({
                        "signature": "valid definition rejected|" + d["what"], "unit": name,
                        "case": 0, "monitor": b.name, "build": d,
                        "detail": "the derive macro does not accept this definition:\n%s\n%s"
                                  % (d["source"][:1500], d["error"][:1500])})
            r = run_monitor(prop, b, step.tier or tier, seed + step.seed_shift, step.scale,
                            step.cap)
            for v in r["violations"]:
                v.update(monitor=b.name, crate=step.crate, profile=step.profile, mode=step.mode,
                         tier=step.tier or tier, seed=seed + step.seed_shift, extra=step.extra,
                         scale=step.scale)
            violations += r["violations"]
            info["rejected_definitions"] = sorted(info.get("rejected_definitions", {}))
            info["result"] = r
            runs.append(info)
            if r["harness_errors"]:
                problems.append("%s: harness errors: %s" % (b.name, r["harness_errors"][:3]))
            if not r.get("died"):
                if r["chunks_done"] * 2 < r["chunks"]:
                    problems.append("%s: only %d of %d chunks within its time" % (
                        b.name, r["chunks_done"], r["chunks"]))
                need = step.needs
                for k, n in need.items():
                    got = r["counters"].get(k, 0)
                    if got < n:
                        problems.append("%s: only %d %s observed, needs %d" % (b.name, got, k, n))
                if r["evaluations"] < step.min_evals:
                    problems.append("%s: only %d evaluations" % (b.name, r["evaluations"]))
        except Inconclusive as e:
            problems.append("%s: %s" % (step.label(), e))

    known_sigs = known(prop)
    fresh, seen_known = [], set()
    for v in violations:
        hit = [w for s, w in known_sigs if s == v["signature"]]
        if hit:
            seen_known.add((v["signature"], hit[0]))
        else:
            fresh.append(v)
    for s, w in sorted(seen_known):
        say("KNOWN-FINDING: property=%s %s" % (prop, w or s))
    shown = set()
    for i, v in enumerate(fresh):
        if v["signature"] in shown or len(shown) >= 8:
            continue
        shown.add(v["signature"])
        path = os.path.join(EVID, "replay-%s-%d.json" % (prop, len(shown)))
        json.dump(dict(v, property=prop), open(path, "w"), indent=1)
        say("VIOLATION property=%s replay=%s" % (prop, path))
        say("  %s\n  %s" % (v["signature"], v["detail"][:1200]))
    write_evidence(prop, tier, seed, spec, runs, fresh, problems, time.time() - t0)
    for p in problems:
        say("INCONCLUSIVE property=%s %s" % (prop, p))
    if shown:
        return 1
    if problems:
        return 2
    res = [r["result"] for r in runs if "result" in r]
    say("HELD property=%s evaluations=%d distinct=%d in %.1f s" % (
        prop, sum(r["evaluations"] for r in res), sum(r["distinct"] for r in res),
        time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, spec, runs, fresh, problems, wall):
    res = [(r, r["result"]) for r in runs if "result" in r]
    samples, observed = [], []
    for r, x in res:
        samples += [dict(s, monitor=r["monitor"]) for s in x["samples"]][:12]
        tags = {k: {"count": len(v), "some": v[:6]} for k, v in x["tags"].items()}
        observed.append({
            "monitor": r["monitor"], "mode": r["mode"], "units": x["units"],
            "chunks_run": x["chunks_done"], "chunks_planned": x["chunks"],
            "cut_short_by_time": x["capped"], "evaluations": x["evaluations"],
            "distinct_nontrivial": x["distinct"], "counters": x["counters"],
            "maxima": x["maxima"], "sets": tags, "run_s": x["wall_s"],
            "build_s": r.get("build_s"), "definitions": r.get("definitions"),
            "plain_types": r.get("registered_types"),
            "definitions_rejected": r.get("rejected_definitions")})
    extra_evals = 0
    for r in runs:
        if "result" not in r:
            observed.append(r)
            extra_evals += r.get("probes", 0)
            samples += r.get("samples", [])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(x["evaluations"] for _, x in res) + extra_evals,
            "distinct_nontrivial": sum(x["distinct"] for _, x in res),
            "rule": spec["rule"],
            "samples": samples,
            "observed": observed,
            "violations": [v["signature"] for v in fresh][:50],
            "problems": problems,
        },
        "wall_s": round(wall, 2),
    }
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def replay(path):
    v = json.load(open(path))
    prop = v["property"]
    say(v["signature"])
    if "crate" not in v:
        say(v["detail"])
        say("replay: run the check again; the compile probes are deterministic")
        return 0
    clear_fingerprints(TARGET)
    b = Build(v["crate"], v["profile"], v["mode"])
    if v["crate"] == "reg":
        build_reg(b, v["seed"], v["extra"], {})
    else:
        ok, errors = b.run({})
        if not ok:
            raise Inconclusive("does not build")
    out = os.path.join(TARGET, "replay.json")
    s, t = child([b.bin, "--prop", prop, "--seed", str(v["seed"]), "--tier", v["tier"],
                  "--scale", str(v["scale"]), "--unit", v["unit"], "--case", str(v["case"]),
                  "--out", out], dict(os.environ), HANG_MS / 1000)
    if s != 0:
        say("the case ends with %s: %s" % (s, t[-1500:]))
        return 1
    r = json.load(open(out))
    for x in r["violations"]:
        say(x["signature"] + "\n  " + x["detail"])
    say("%d violation(s) in this case" % len(r["violations"]))
    return 1 if r["violations"] else 0


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(prop, tier, seed)
    except Inconclusive as e:
        say("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
