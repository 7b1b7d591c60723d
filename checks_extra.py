"""The checks whose executions run under a controlled scheduler, history or step counter (mc-sched),
and those about how the crate is built (mc-feat, mc-sig)."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

TRIPLE = "x86_64-unknown-linux-gnu"
MODES = {"C20": "history", "C21": "threads", "C23": "work"}
DEADLINE = {"quick": 400, "thorough": 3000}


def sched_binary(m):
    t = os.path.join(m.TARGET, "mc-sched")
    m.cargo_build("mc-sched", t, ["--target", TRIPLE],
                  {"RUSTC_WRAPPER": os.path.join(m.VERIF, "mc-sched", "rustc-wrap.sh")},
                  crates=m.REPO_CRATES + ["schedops", "mc-sched"])
    return os.path.join(t, TRIPLE, "release", "mc-sched")


def judge(m, binary, case, work):
    """0 holds, 1 violated; and what is said of it"""
    p = os.path.join(work, "case.json")
    with open(p, "w") as f:
        json.dump(case, f)
    rc, out = m.run_child([binary, "one", p], 300, 24)
    return rc, out.strip()


def counts(prop, phases):
    s = lambda k: sum(p.get(k, 0) for p in phases)
    if prop == "C21":
        # a state is a point of an execution at which another thread could be given the processor
        return s("preemption_points") + s("executions"), s("steps"), s("executions")
    if prop == "C20":
        return s("configurations"), s("operations"), s("operations")
    return s("families"), s("steps"), s("families")


def explore(prop, tier, res, m):
    binary = sched_binary(m)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        out = os.path.join(work, "out.json")
        rc, log = m.run_child([binary, MODES[prop], tier, out], DEADLINE[tier] + 300, 28,
                              {"MC_DEADLINE": str(DEADLINE[tier])})
        if rc != 0:
            raise m.CheckError("exploration of %s ended with %s:\n%s" % (prop, rc, log[-3000:]))
        rep = json.load(open(out))
        c = res.coverage
        c["states"], c["transitions"], c["traces_validated_against_impl"] = counts(prop, rep["phases"])
        c["phases"], c["samples"] = rep["phases"], rep["samples"]
        c["exhaustive"] = rep.get("left_out", 0) == 0 and not any(p.get("diverged") for p in rep["phases"])
        if rep.get("left_out"):
            c["capped"] = "%d tasks not carried to their end" % rep["left_out"]
        for f in sorted(rep["failures"], key=lambda f: m.size_of(f["case"]))[:3]:
            rc, text = judge(m, binary, f["case"], work)
            if rc == 0 and "does not return within" in f["msg"]:
                # the machine was busy: it does return when it has the machine for itself
                c["exhaustive"] = False
                c["capped"] = (c.get("capped", "") + "; " if c.get("capped") else "") + "a case took too long: %s" % f["msg"][:200]
                continue
            note = "" if rc == 1 else " (the case alone gives %s %s)" % (rc, text)
            rp = m.write_replay(prop, {"property": prop, "replayer": "sched", "tier": tier, "case": f["case"],
                                       "message": f["msg"] + note})
            res.violations.append((f["msg"] + note, rp))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res.assumptions += {
        "C21": ["threads are interrupted at basic blocks and memory accesses of the crates under test and at the "
                "operations of the standard library's locks; accesses inside dependencies run uninterrupted",
                "memory is sequentially consistent"],
        "C20": ["operations beyond the listed ones, and longer histories, behave as those explored"],
        "C23": ["growth over the sizes measured represents growth beyond them"],
    }[prop]


# --- C24: the combinations of features ------------------------------------------------------

STATES = {"functions": ["", "core-functions", "functions"], "regex": ["", "regex"], "trace": ["", "core-trace", "trace"]}
COMBOS = [(f, r, t) for f in STATES["functions"] for r in STATES["regex"] for t in STATES["trace"]]
REFERENCE = ("functions", "regex", "")
LEVELS = ["none", "error", "warn", "info", "debug", "trace"]
BUILDERS = 3


def combo_name(c):
    return "+".join(x for x in c if x) or "nothing"


def feat_binary(m, combo, worker):
    """the binary built with a combination of features, or what the compiler says"""
    t = os.path.join(m.TARGET, "mc-feat%d" % worker)
    b = os.path.join(t, "bin-" + combo_name(combo))
    try:
        m.cargo_build("mc-feat", t, ["--features", ",".join(x for x in combo if x)])
    except m.CheckError as e:
        return None, str(e)
    if os.path.exists(b):
        os.unlink(b)
    shutil.copy2(os.path.join(t, "release", "mc-feat"), b)
    return b, None


def feat_binaries(m):
    # those that differ least go to the same target directory
    def some(w):
        return [(c, feat_binary(m, c, w)) for i, c in enumerate(COMBOS) if i % BUILDERS == w]
    with concurrent.futures.ThreadPoolExecutor(BUILDERS) as ex:
        return dict(x for l in ex.map(some, range(BUILDERS)) for x in l)


LITERAL = re.compile(r"""'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*\"""" + "|$(?!)", re.S)


def uses(q):
    """which functions a query that is accepted calls"""
    return set(re.findall(r"([a-z][a-z0-9_]*)\(", LITERAL.sub("''", q)))


def feat_needs(q):
    u = uses(q)
    return {f for f, names in (("regex", {"match", "search"}), ("functions", {"vv", "nl", "ln"})) if u & names}


def feat_judge(ref, got, lacks, q):
    """ref, got: (status, anything that is the same for the same outcome); returns what is wrong"""
    if got[0] == 2:
        return "panics"
    if ref[0] == 1:
        missing = feat_needs(q) & lacks
        if missing:
            return None if got[0] == 0 else "is accepted without the feature it needs (%s)" % ", ".join(sorted(missing))
        return None if got == ref else "parses or evaluates differently"
    if got[0] == 1:
        return "is accepted, but rejected with all features"
    if re.search(r"(match|search|vv|nl|ln)\s*\(", q):
        return None      # which of several faults is reported may depend on the function
    return None if got == ref else "is rejected differently"


def feat_lacks(combo):
    return {f for f, c in (("functions", combo[0]), ("regex", combo[1])) if c != f}


def feat_show(m, binary, level, q, work):
    p = os.path.join(work, "q.json")
    with open(p, "w") as f:
        json.dump(q, f)
    rc, out = m.run_child([binary, "show", level, p], 60, 8)
    try:
        st, text = json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError, TypeError):
        return (2, "ends with %s: %s" % (rc, out[-300:])), out
    return (st, text), "\n".join(out.strip().splitlines()[:-1])


def check_c24(prop, tier, res, m):
    bins = feat_binaries(m)
    if bins[REFERENCE][0] is None:
        raise m.CheckError(bins[REFERENCE][1])
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        runs = [("quick", x, LEVELS if tier == "thorough" else [LEVELS[0], LEVELS[-1]]) for x in COMBOS]
        if tier == "thorough":
            runs += [("thorough", x, LEVELS[:1]) for x in COMBOS] + [("thorough", ("functions", "regex", "trace"), LEVELS[-1:])]
        corpora = {}

        def records(size, combo, level):
            p = os.path.join(work, "%s-%s" % (combo_name(combo), level))
            rc, out = m.run_child([bins[combo][0], "run", size, level, p], 900)
            if rc != 0:
                return None, "evaluating the corpus ends with %s: %s" % (rc, out[-500:])
            b = open(p, "rb").read()
            os.unlink(p)
            return b, "evaluating the corpus prints: " + out[:500] if out else None

        def corpus(size):
            """the queries, what the reference makes of them, and which features the accepted ones need"""
            if size not in corpora:
                lst = os.path.join(work, "list.json")
                rc, out = m.run_child([bins[REFERENCE][0], "list", size, lst], 300)
                if rc != 0:
                    raise m.CheckError("list: %s %s" % (rc, out[-1000:]))
                queries = json.load(open(lst))
                ref, err = records(size, REFERENCE, "none")
                if ref is None:
                    raise m.CheckError("reference: " + err)
                corpora[size] = queries, ref, {i: feat_needs(q) for i, q in enumerate(queries) if ref[9 * i] == 1}
            return corpora[size]

        def violated(combo, level, q, msg):
            rp = m.write_replay(prop, {"property": prop, "replayer": "feat", "features": list(combo), "level": level,
                                       "query": q, "message": msg})
            res.violations.append((msg, rp))

        for combo in COMBOS:
            if bins[combo][0] is None:
                violated(combo, None, None, "the crate does not build with the features %s: %s"
                         % (combo_name(combo), bins[combo][1][-1500:]))
        compared = different = 0
        phases = []
        for size, combo, levels in runs:
            if bins[combo][0] is None or len(res.violations) >= 3:
                continue
            queries, ref, needs = corpus(size)
            lacks, name, here = feat_lacks(combo), combo_name(combo), 0
            for level in levels if combo[2] else LEVELS[:1]:
                if combo == REFERENCE:
                    continue
                got, err = records(size, combo, level)
                if err:
                    violated(combo, level, None, "with the features %s, level %s: %s" % (name, level, err))
                    continue
                here += len(queries)
                bad = []
                for i, q in enumerate(queries):
                    a, b = ref[9 * i:9 * i + 9], got[9 * i:9 * i + 9]
                    if a == b and not (a[0] == 1 and needs[i] & lacks) and a[0] != 2:
                        continue
                    different += 1
                    why = feat_judge((a[0], a), (b[0], b), lacks, q)
                    if why:
                        bad.append((len(q), q, why))
                for _, q, why in sorted(bad)[:1]:
                    violated(combo, level, q, "with the features %s, level %s, the query %s %s (%d such queries)"
                             % (name, level, q, why, len(bad)))
            compared += here
            phases.append({"phase": name, "levels": levels if combo[2] else LEVELS[:1], "queries": len(queries), "compared": here})
        del res.violations[3:]
        queries = max((c[0] for c in corpora.values()), key=len)
        res.coverage.update(
            states=sum(len(c[0]) for c in corpora.values()), transitions=compared, traces_validated_against_impl=compared,
            exhaustive=not res.violations, combinations=len(COMBOS), accepted=sum(len(c[2]) for c in corpora.values()),
            differing_as_they_should=different, phases=phases, samples=queries[::max(1, len(queries) // 12)])
        res.assumptions += ["the corpus of queries (mc-feat/src/corpus.rs) represents the rest",
                            "the build with functions and regex, which the other checks decide, is the reference"]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_feat(r, m):
    combo = tuple(r["features"])
    b, err = feat_binary(m, combo, COMBOS.index(combo) % BUILDERS)
    if err:
        print(err[-3000:])
        return 1
    if r["query"] is None:
        print("run the whole check")
        return 3
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        rb, err = feat_binary(m, REFERENCE, COMBOS.index(REFERENCE) % BUILDERS)
        (ref, _), (got, printed) = feat_show(m, rb, "none", r["query"], work), feat_show(m, b, r["level"], r["query"], work)
        why = feat_judge(ref, got, feat_lacks(combo), r["query"]) or ("prints something" if printed else None)
        print(r["query"], "\nwith all features:", ref, "\nhere:", got, "\n", why or "holds")
        return 1 if why else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_c26(prop, tier, res, m):
    import checks_sig
    checks_sig.check(prop, tier, res, m)


def check_c31(prop, tier, res, m):
    import checks_life
    checks_life.check(prop, tier, res, m)


def register(checks, m):
    checks["C31"] = lambda prop, tier, res: check_c31(prop, tier, res, m)
    checks["C26"] = lambda prop, tier, res: check_c26(prop, tier, res, m)
    checks["C24"] = lambda prop, tier, res: check_c24(prop, tier, res, m)
    for p in MODES:
        checks[p] = lambda prop, tier, res: explore(prop, tier, res, m)


def setup(m):
    sched_binary(m)
    feat_binaries(m)


def replay(r, m):
    if r["replayer"] == "sig":
        import checks_sig
        return checks_sig.replay(r, m)
    if r["replayer"] == "life":
        import checks_life
        return checks_life.replay(r, m)
    if r["replayer"] == "feat":
        return replay_feat(r, m)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        rc, text = judge(m, sched_binary(m), r["case"], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(text)
    return {0: 0, 1: 1}.get(rc, 3)
