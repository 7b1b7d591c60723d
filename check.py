#!/usr/bin/env python3
"""Driver of the checks.

    check.py setup                      build everything the checks need
    check.py PROPERTY [quick|thorough]  decide one property (default tier: $VERIF_TIER or quick)
    check.py replay FILE                judge a recorded counterexample again

Exit 0: the property held on everything explored. Exit 1, with a VIOLATION line: it is broken.
Any other exit: the check itself failed.
"""
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, ".target")
sys.path.insert(0, VERIF)


class CheckError(Exception):
    pass


def env(**extra):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_INCREMENTAL",
              "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra)
    return e


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "jsonpath-compliance-test-suite"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


REPO_CRATES = ["serde_json_path", "serde_json_path_core", "serde_json_path_macros", "serde_json_path_macros_internal"]


def cargo_build(crate, target, args=(), extra_env=None, timeout=800, crates=REPO_CRATES):
    """Build a harness crate against /repo's working tree as it is now.

    Cargo decides by modification times, which a copied or restored tree can fake, so the crates
    of /repo are rebuilt whenever the contents of its sources differ from those last built."""
    crate_dir = os.path.join(VERIF, crate)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-verif"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".repo-hash")
        want = repo_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        if have != want:
            if have is not None:
                cmd = ["cargo", "clean", "--offline", "--release", "--target-dir", target]
                if "--target" in args:
                    cmd += ["--target", args[args.index("--target") + 1]]
                for c in crates:
                    cmd += ["-p", c]
                subprocess.run(cmd, cwd=crate_dir, env=env(**(extra_env or {})), stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
            if os.path.exists(stamp):
                os.unlink(stamp)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", target, *args],
                           cwd=crate_dir, env=env(**(extra_env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError("building %s failed:\n%s" % (crate, r.stdout[-6000:]))
        with open(stamp, "w") as f:
            f.write(want)


def mc_binary(overrides=False):
    if overrides:
        t = os.path.join(TARGET, "mc-over")
        cargo_build("mc", t, ["--features", "overrides"])
    else:
        t = os.path.join(TARGET, "mc")
        cargo_build("mc", t)
    return os.path.join(t, "release", "mc")


def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setsid()
    return f


def known_findings(prop):
    """id -> description of the findings listed for a property"""
    out = {}
    with open(os.path.join(VERIF, "KNOWN-FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("known:"):
                _, p, i, text = line.split(None, 3)
                if p == "property=" + prop:
                    out[i.split("=", 1)[1]] = text.strip()
    return out


def known_env(prop):
    return {"MC_KNOWN": ",".join(known_findings(prop))}


def run_child(cmd, timeout, mem_gb=24, extra_env=None):
    """returns (returncode or None on timeout, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=limits(mem_gb), env=env(**(extra_env or {})))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timed out after %ss" % timeout


def write_replay(prop, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(obj, ensure_ascii=True, indent=1, sort_keys=True)
    name = "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(body + "\n")
    return p


class Result:
    """what a check found, to be turned into evidence, output and exit code"""

    def __init__(self):
        self.coverage = {}
        self.violations = []     # (message, replay path)
        self.known = []          # lines
        self.assumptions = []


def judge_one(binary, prop, case, work, timeout=90, mem_gb=8):
    """judge a single case in a process of its own: ('ok'|'violation'|'error', text)"""
    path = os.path.join(work, "one.json")
    with open(path, "w") as f:
        json.dump(case, f)
    rc, out = run_child([binary, "one", prop, path], timeout, mem_gb, known_env(prop))
    if rc is None:
        return "violation", "does not return within %d s" % timeout
    if rc == 0:
        return "ok", out.strip()
    if rc == 1:
        return "violation", out.strip()
    if rc < 0 or rc in (134, 139):
        tail = out.strip().splitlines()[-3:]
        return "violation", "the process is killed by signal %d (%s)" % (-rc if rc < 0 else rc - 128, " / ".join(tail))
    return "error", out.strip()


def size_of(case):
    return len(json.dumps(case))


def explore(prop, tier, overrides=False, label=None, deadline=None):
    """explore with the mc binary; returns (report, violations)"""
    binary = mc_binary(overrides)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        out = os.path.join(work, "out.json")
        slots = os.path.join(work, "slots")
        deadline = deadline or (300 if tier == "quick" else 3000)
        rc, log = run_child([binary, "run", prop, tier, out, slots], deadline + 200,
                            extra_env={"MC_DEADLINE": str(deadline), **known_env(prop)})
        violations = []
        if rc == 0:
            rep = json.load(open(out))
            if rep["harness_error"]:
                raise CheckError("harness error: " + rep["harness_error"])
            fails = sorted(rep["failures"], key=lambda f: size_of(f["case"]))
            for f in fails[:3]:
                kind, text = judge_one(binary, prop, f["case"], work)
                note = "" if kind == "violation" else \
                    " (seen during the exploration; the case alone gives: %s, so it depends on what ran before or beside it)" % text
                rp = write_replay(prop, {"property": prop, "binary": "mc-over" if overrides else "mc", "tier": tier,
                                         "phase": f["phase"], "case": f["case"], "message": f["msg"] + note})
                violations.append((f["msg"] + note, rp))
            return rep, violations
        # the process died or hung: find the case
        if rc is None or rc in (97,) or rc < 0 or rc in (134, 139):
            import struct
            data = open(slots, "rb").read()
            shown = subprocess.run([binary, "show", prop, tier], stdout=subprocess.PIPE, text=True, env=env())
            names = [l.split(":")[0] for l in shown.stdout.splitlines()]
            found = []
            for off in range(0, len(data), 32):
                ph, unit, cnt, busy = struct.unpack("<4Q", data[off:off + 32])
                if not busy:
                    continue
                lg = os.path.join(work, "unit.log")
                if os.path.exists(lg):
                    os.unlink(lg)
                rc2, log2 = run_child([binary, "unit", prop, tier, str(ph), str(unit), lg, os.path.join(work, "u.json")], 240,
                                     extra_env=known_env(prop))
                if rc2 == 0 or not os.path.exists(lg):
                    continue
                lines = open(lg).read().splitlines()
                last = None
                for l in reversed(lines):
                    try:
                        last = json.loads(l)
                        break
                    except ValueError:
                        continue
                if last is None:
                    continue
                kind, text = judge_one(binary, prop, last, work)
                if kind == "violation":
                    rp = write_replay(prop, {"property": prop, "binary": "mc-over" if overrides else "mc", "tier": tier,
                                             "phase": names[ph] if ph < len(names) else ph, "case": last, "message": text})
                    found.append((text, rp))
                else:
                    rp = write_replay(prop, {"property": prop, "binary": "mc-over" if overrides else "mc", "tier": tier,
                                             "unit": [ph, unit], "case": last,
                                             "message": "unit ends with status %s" % rc2})
                    found.append(("exploring unit %d of phase %s ends with status %s, last case %s"
                                  % (unit, names[ph] if ph < len(names) else ph, rc2, json.dumps(last)[:300]), rp))
            if found:
                return {"cases": 0, "states": 0, "transitions": 0, "traces": 0, "classes": {}, "phases": [],
                        "samples": [], "exhaustive": False, "timed_out": False}, found[:3]
        raise CheckError("exploration of %s ended with %s:\n%s" % (prop, rc, log[-3000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def add_report(res, rep, prefix=None):
    c = res.coverage
    for a, b in (("states", "states"), ("transitions", "transitions"), ("traces_validated_against_impl", "traces")):
        c[a] = c.get(a, 0) + rep[b]
    c.setdefault("outcomes", {})
    for k, v in rep["classes"].items():
        c["outcomes"][k] = c["outcomes"].get(k, 0) + v
    for p in rep["phases"]:
        p = dict(p)
        if prefix:
            p["phase"] = prefix + p["phase"]
        c.setdefault("phases", []).append(p)
    c.setdefault("samples", []).extend(rep["samples"])
    c["exhaustive"] = c.get("exhaustive", True) and rep["exhaustive"]
    if rep.get("timed_out"):
        c["capped"] = "the time limit ended the exploration; see units_explored per phase"


ASSUME_EVAL = ["RFC 9535 as transcribed in the reference model (mc/src: rfc9535.abnf, refparse.rs, eval.rs)",
               "documents within the stated bounds represent the rest (small-scope hypothesis)"]


def note_known(res, prop):
    """a line for each listed finding that was met"""
    met = res.coverage.get("outcomes", {})
    for i, text in known_findings(prop).items():
        if met.get(i):
            res.known.append("%s: %s (%d cases)" % (i, text, met[i]))


def check_mc(prop, tier, res):
    rep, v = explore(prop, tier)
    add_report(res, rep)
    res.violations += v
    note_known(res, prop)
    res.assumptions += ASSUME_EVAL


def check_c09(prop, tier, res):
    for over in (False, True):
        rep, v = explore(prop, tier, overrides=over)
        add_report(res, rep, "custom functions named like standard ones: " if over else None)
        res.violations += v
    res.assumptions += ASSUME_EVAL


DEEP = 100000
# the shapes of robust.rs's NESTS
SHAPES = ["parentheses", "negated parentheses", "spaced parentheses", "disjunctions", "filters", "descendant filters",
          "compared filters", "functions", "standard functions", "logical functions", "negated functions",
          "nodes functions", "second arguments", "filters in functions", "parentheses in functions",
          "unclosed parentheses", "unclosed filters", "unclosed functions", "closing parentheses", "negations", "brackets"]


def check_c13(prop, tier, res):
    """the exploration, and each shape nested far deeper than the stack, in a process of its own"""
    check_mc(prop, tier, res)
    if res.violations:
        return
    binary = mc_binary()
    listed = known_findings(prop)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        n = 0
        for shape in SHAPES:
            case = {"kind": "deep", "q": shape, "doc": None, "x": DEEP}
            kind, text = judge_one(binary, prop, case, work)
            if kind == "error":
                raise CheckError("judging %s: %s" % (case, text))
            n += 1
            i = "deep-" + shape.replace(" ", "-")
            if kind == "violation" and i in listed and "overflow" in text:
                res.known.append("%s: %s" % (i, listed[i]))
            elif kind == "violation":
                rp = write_replay(prop, {"property": prop, "binary": "mc", "tier": tier, "phase": "deep nesting",
                                         "case": case, "message": text})
                res.violations.append(("%s nested %d times: %s" % (shape, DEEP, text), rp))
        res.coverage.setdefault("phases", []).append(
            {"phase": "deep nesting", "bound": "%d nested shapes at depth %d, each in a process of its own" % (n, DEEP),
             "units_explored": n, "units": n})
    finally:
        shutil.rmtree(work, ignore_errors=True)


CHECKS = {}


def register_checks():
    for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C12 C14 C15 C16 C17 C18 C19 C22 C25 C27 C28 C29 C30 C32").split():
        CHECKS[p] = check_mc
    CHECKS["C09"] = check_c09
    CHECKS["C13"] = check_c13
    try:
        import checks_extra
        checks_extra.register(CHECKS, sys.modules[__name__])
    except ImportError:
        pass


def setup():
    mc_binary()
    mc_binary(True)
    register_checks()
    try:
        import checks_extra
        checks_extra.setup(sys.modules[__name__])
    except ImportError:
        pass


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        setup()
        return 0
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        register_checks()
        if r.get("replayer"):
            import checks_extra
            return checks_extra.replay(r, sys.modules[__name__])
        b = mc_binary(r.get("binary") == "mc-over")
        w = tempfile.mkdtemp(prefix="verif-")
        try:
            kind, text = judge_one(b, r["property"], r["case"], w)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        print(kind, text)
        return {"ok": 0, "violation": 1}.get(kind, 3)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    register_checks()
    if prop not in CHECKS:
        print("unknown property", prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    res = Result()
    try:
        CHECKS[prop](prop, tier, res)
    except CheckError as e:
        print("CHECK ERROR property=%s\n%s" % (prop, e))
        return 2
    res.coverage.setdefault("samples", [])
    res.coverage["samples"] = res.coverage["samples"][:24]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": res.coverage,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(res.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    c = res.coverage
    print("%s %s: %s states, %s transitions, %s executions compared, exhaustive within bounds: %s, %.1f s" % (
        prop, tier, c.get("states"), c.get("transitions"), c.get("traces_validated_against_impl"),
        c.get("exhaustive"), time.time() - t0))
    for k in res.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for msg, rp in res.violations:
        print("violated: " + msg.replace("\n", " ")[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1 if res.violations else 0


if __name__ == "__main__":
    sys.exit(main())
