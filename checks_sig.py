"""C26: which signatures the function attribute compiles, by giving each of them to the compiler."""
import concurrent.futures
import itertools
import json
import os
import re
import shutil
import subprocess
import tempfile

TYPES = "VNL"
LONG = {"V": "ValueType", "N": "NodesType", "L": "LogicalType"}
PATHS = ["", "functions::", "serde_json_path::functions::", "::serde_json_path::functions::"]
WORKERS = 8

KEYWORDS = set("""as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub
ref return self Self static struct super trait true type unsafe use where while async await abstract become box do final
macro override priv typeof unsized virtual yield try gen""".split())
RAW = sorted(KEYWORDS - {"self", "Self", "super", "crate"})
BUILTIN = {"length", "count", "value", "match", "search"}
COMMON = """a b c d e f g h i j k l m n o p q r s t u v w x y z arg args arg_0 arg_1 arg_2 arg0 arg1 value values val vals node
nodes list input inputs output result res ret ok err some none name idx index item len key data query path ty kind it iter next
first last count length func function functions evaluator validator expected received position core std lazy inventory vec deque
this expr params param state cx ctx tmp out acc queue stack types tk text string string_ boxed collections sync into from
try_from unwrap pop_front new eval validate f_validator f_evaluator self_ _a __a _0 a0 aa logical main tell answer""".split()


def macro_names(m):
    """every identifier in the macros' sources: what generated code could clash with"""
    names = set()
    for root, dirs, files in os.walk(os.path.join(m.REPO, "serde_json_path_macros")):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            if f.endswith(".rs"):
                names |= set(re.findall(r"[a-z_][a-z0-9_]*", open(os.path.join(root, f), errors="replace").read()))
    return names


def usable(names):
    return sorted(n for n in set(names) if n not in KEYWORDS and re.fullmatch(r"[a-z_][a-z0-9_]*", n) and n.strip("_"))


def spell(t, path, life):
    return path + LONG[t] + ("" if t == "L" else life)


class Legal:
    """one function that has to compile, and what is asked of it"""

    def __init__(self, ident, params, ret, attr="", pre="", generics="", ty=None, ret_ty=None, use_attr="serde_json_path::function",
                 jname=None, post=""):
        # params: [(written name, type)]
        self.ident, self.params, self.ret = ident, params, ret
        self.attr, self.pre, self.generics, self.use_attr, self.post = attr, pre, generics, use_attr, post
        self.ty = ty or [spell(t, "", "") for _, t in params]
        self.ret_ty = ret_ty or spell(ret, "", "<'static>")
        self.jname = jname or ident.removeprefix("r#")

    def told(self):
        out = []
        for i, (_, t) in enumerate(self.params):
            out.append({"V": "V%d" % (7 * i + 1), "L": "L" + ("true" if i % 2 == 0 else "false"),
                        "N": "N" + ".".join(str(x) for x in range(i % 5 + 1))}[t])
        return ",".join(out)

    def args(self):
        return [{"V": str(7 * i + 1), "L": "$.t" if i % 2 == 0 else "$.u", "N": "$.n[0:%d]" % (i % 5 + 1)}[t]
                for i, (_, t) in enumerate(self.params)]

    def source(self, judged=True):
        names = [re.sub(r"^mut ", "", n) for n, _ in self.params]
        ps = ", ".join("%s: %s" % (n, t) for (n, _), t in zip(self.params, self.ty))
        attr = "#[%s%s]" % (self.use_attr, self.attr)
        body = "::mc_sig::Answer::answer(&[%s], %s)" % (
            ", ".join("::mc_sig::Tell::tell(&%s)" % n for n in names), json.dumps(self.told()))
        return "%s %s fn %s%s(%s) -> %s { %s } %s" % (attr, self.pre, self.ident, self.generics, ps, self.ret_ty, body, self.post)

    def case(self):
        if not re.fullmatch(r"[a-z][a-z0-9_]*", self.jname):
            return None     # such a name can be registered, but no query can call it
        a = self.args()
        call = lambda x: "%s(%s)" % (self.jname, ",".join(x))
        told = self.told().replace("'", "\\'")
        if self.ret == "V":
            form = lambda c, w: "$.d[?%s=='%s']" % (c, w)
            wrong_use = ["$.d[?%s]" % call(a), "$.d[?count(%s)==1]" % call(a)]
        elif self.ret == "N":
            form = lambda c, w: "$.d[?value(%s)=='%s']" % (c, w)
            wrong_use = ["$.d[?%s=='x']" % call(a), "$.d[?length(%s)==1]" % call(a)]
        else:
            form = lambda c, w: "$.d[?%s]" % c
            wrong_use = ["$.d[?%s==true]" % call(a), "$.d[?length(%s)==1]" % call(a)]
        yes = [form(call(a), told)]
        no = [form(call(a), told + "!")] if self.ret != "L" else ["$.d[?!%s]" % call(a)]
        bad = wrong_use + [form(call(a + ["1"]), told)]
        if a:
            bad.append(form(call(a[:-1]), told))
        for i, (_, t) in enumerate(self.params[:8]):
            for w in {"V": ["$.n[*]", "1==1"], "N": ["1", "1==1"], "L": ["1", "'a'"]}[t]:
                bad.append(form(call(a[:i] + [w] + a[i + 1:]), told))
        return (self.describe(), yes, no, bad)

    def describe(self):
        return " ".join(self.source().split(" { ::mc_sig")[0].split())

    def __hash__(self):
        return hash(self.source())

    def __eq__(self, o):
        return self.source() == o.source()


def legal(m, thorough):
    out = []
    n = itertools.count()
    fresh = lambda: "c%d" % next(n)
    named = lambda ts: [("p%d" % i, t) for i, t in enumerate(ts)]
    # every list of types
    for k in range(0, (6 if thorough else 4) + 1):
        for ts in itertools.product(TYPES, repeat=k):
            for r in TYPES:
                out.append(("types", Legal(fresh(), named(ts), r)))
    # every way to write them
    lives = ["", "<'_>", "<'a>"]
    for t, r in itertools.product(TYPES, TYPES):
        for path, rpath in itertools.product(PATHS, PATHS):
            for life, rlife in itertools.product(lives if t != "L" else [""], ["", "<'_>", "<'a>", "<'static>"] if r != "L" else [""]):
                if rlife in ("", "<'_>") and r != "L" and t == "L":
                    continue    # nothing to take the lifetime from
                g = "<'a>" if "'a" in life + rlife else ""
                if g and "'a" not in life:
                    g = "<'a>"
                l = Legal(fresh(), [("p", t)], r, generics=g, ty=[spell(t, path, life)], ret_ty=spell(r, rpath, rlife))
                out.append(("spellings", l))
    for ts in itertools.product("VN", repeat=2):
        for lf in itertools.product(lives, repeat=2):
            for r in TYPES:
                g = "<'a>" if "<'a>" in lf else ""
                rts = ["<'static>"] + (["<'a>"] if g else [])
                for rl in rts if r != "L" else [""]:
                    out.append(("spellings", Legal(fresh(), named(ts), r, generics=g, ty=[spell(t, "", l) for t, l in zip(ts, lf)],
                                                   ret_ty=spell(r, "", rl))))
    out.append(("spellings", Legal(fresh(), named("VN"), "N", generics="<'a, 'b>", ty=["ValueType<'a>", "NodesType<'b>"], ret_ty="NodesType<'b>")))
    out.append(("spellings", Legal(fresh(), named("VN"), "N", generics="<'a, 'b: 'a>", ty=["ValueType<'a>", "NodesType<'b>"], ret_ty="NodesType<'a>")))
    # names
    names = usable(set(COMMON) | macro_names(m))
    for x in names:
        if x not in BUILTIN:
            out.append(("function names", Legal(x, named("VN"), "V")))
        out.append(("function names", Legal(x, [(x, "V"), ("zq9", "L")], "L", attr='(name = "fn_%s")' % x, jname="fn_" + x)))
        for ps in ([(x, "V"), ("zq9", "N")], [("zq9", "L"), (x, "V")], [(x, "N"), ("zq9", "L"), ("zr9", "V")], [("mut " + x, "V")]):
            out.append(("parameter names", Legal(fresh(), ps, "L", pre="#[allow(unused_mut)]" if "mut" in ps[0][0] else "")))
    for x in ["V", "A", "Arg0", "Result", "String", "ValueType_", "ARG"]:
        out.append(("parameter names", Legal(fresh(), [(x, "V"), ("zq9", "L")], "L", pre="#[allow(non_snake_case)]")))
    for x in RAW:
        out.append(("raw names", Legal("r#" + x, named("VN"), "V", attr='(name = "%s")' % ("raw_" + x), jname="raw_" + x)))
        if x not in BUILTIN:
            out.append(("raw names", Legal("r#" + x, named("V"), "V")))
        out.append(("raw names", Legal(fresh(), [("r#" + x, "V"), ("zq9", "N")], "V")))
    few = ["b", "i", "n", "args", "input", "res", "result", "value", "node", "item", "out", "data", "a", "v", "arg_0", "values", "tk", "err", "idx", "name", "f", "x"]
    for x, y in itertools.permutations(names if thorough else few, 2):
        out.append(("pairs of parameter names", Legal(fresh(), [(x, "V"), (y, "L")], "L")))
    # the attribute
    for i, at in enumerate(['', '()', '(name = "at%d")', '(name = "at%d",)', '( name="at%d" )', '(name = r"at%d")', '(name = r#"at%d"#)',
                            '(name = "a_1_%d")', '(name = "\\u{61}t%d")']):
        for j, u in enumerate(["serde_json_path::function", "::serde_json_path::function", "function"]):
            for ts in ("", "V", "NL"):
                k = 1000 * i + 10 * j + len(ts)
                f = fresh()
                a = at % k if "%d" in at else at
                jn = None if "name" not in at else ("a_1_%d" if "a_1_" in at else "at%d") % k
                out.append(("attributes", Legal(f, named(ts), "V", attr=a, use_attr=u, jname=jn)))
    for pre in ["pub", "pub(crate)", "/// documentation\n", "#[allow(unused)]", "#[inline]", "#[doc(hidden)] pub", "#[cfg(all())]",
                "#[must_use]", "#[allow(clippy::all)] #[inline(always)] pub(super)"]:
        for ts in ("", "V", "NL"):
            out.append(("attributes", Legal(fresh(), named(ts), "V", pre=pre)))
    for pre in ["mut "]:
        for ts in itertools.product(TYPES, repeat=2):
            out.append(("parameter names", Legal(fresh(), [(pre + "p%d" % i, t) for i, t in enumerate(ts)], "V", pre="#[allow(unused_mut)]")))
    # many parameters
    for k in list(range(5, 34)) + [64, 65, 100] + ([128, 200] if thorough else []):
        for r in TYPES:
            out.append(("many parameters", Legal(fresh(), [("p%d" % i, TYPES[(i * 2 + k) % 3]) for i in range(k)], r)))
    # a name is registered once in a program
    return out


PRELUDE = """#![allow(warnings)]
use serde_json_path::functions::{self, LogicalType, NodesType, ValueType};
use serde_json_path::function;
"""


def rust_str(s):
    return json.dumps(s, ensure_ascii=False)


class Compiler:
    def __init__(self, m, work):
        t = os.path.join(m.TARGET, "mc-sig")
        m.cargo_build("mc-sig", t)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", t, "--message-format=json"],
                           cwd=os.path.join(m.VERIF, "mc-sig"), env=m.env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.m, self.work, self.externs = m, work, []
        for line in r.stdout.splitlines():
            a = json.loads(line)
            if a.get("reason") == "compiler-artifact" and a["target"]["name"] in (
                    "serde_json_path", "mc_sig", "serde_json_path_macros", "serde_json_path_core", "serde_json", "serde"):
                f = [f for f in a["filenames"] if f.endswith(".rlib")]
                if f:
                    self.externs += ["--extern", "%s=%s" % (a["target"]["name"], f[0])]
        self.deps = os.path.join(t, "release", "deps")
        self.count = itertools.count()

    def compile(self, src, check=False):
        """(binary or None, errors: [(first line, last line, text)])"""
        i = next(self.count)
        p = os.path.join(self.work, "p%d.rs" % i)
        o = os.path.join(self.work, "p%d.bin" % i)
        with open(p, "w") as f:
            f.write(src)
        cmd = ["rustc", "--edition", "2021", "--crate-name", "p%d" % i, "--error-format=json", "-Cdebuginfo=0", "-Ccodegen-units=1",
               "-Cstrip=debuginfo", "--crate-type", "lib" if check else "bin",
               "--emit", "metadata" if check else "link", "-L", "dependency=" + self.deps, "-o", o, p] + self.externs
        r = subprocess.run(cmd, env=self.m.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        errs = []
        for line in r.stderr.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level", "").startswith("error"):
                spans = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
                lines = []
                for s in spans:
                    # to where it stands in the program, out of the macros
                    while s.get("expansion") and not s["file_name"].endswith("p%d.rs" % i):
                        s = s["expansion"]["span"]
                    if s["file_name"].endswith("p%d.rs" % i):
                        lines += [s["line_start"], s["line_end"]]
                errs.append((min(lines) if lines else 0, max(lines) if lines else 0, d["message"]))
        if r.returncode != 0 and not errs:
            if r.returncode < 0 or "internal compiler error" in r.stderr:
                raise self.m.CheckError("rustc: %s %s" % (r.returncode, r.stderr[-2000:]))
            errs.append((0, 0, r.stderr[-500:]))
        return (o if r.returncode == 0 else None), errs


def legal_program(items):
    """items in one module, with a judge of them all"""
    src, ranges = PRELUDE, []
    at = src.count("\n") + 1
    for l in items:
        s = l.source()
        ranges.append((at, at + s.count("\n"), l))
        src += s + "\n"
        at += s.count("\n") + 1
    src += "mod judge { pub fn judge() { ::mc_sig::judge(&[\n"
    for l in items:
        c = l.case()
        if c:
            src += "(%s, &[%s], &[%s], &[%s]),\n" % (rust_str(c[0]), *(", ".join(rust_str(q) for q in qs) for qs in c[1:]))
    main = next((l for l in items if l.ident == "main"), None)
    src += "]); } }\n"
    return (src + "pub fn main() { judge::judge() }\n"), ranges


def try_legal(comp, items):
    """what goes wrong with them: [(item, text)], how many queries were judged"""
    src, ranges = legal_program(items)
    b, errs = comp.compile(src)
    if b is None:
        if len(items) == 1:
            return [(items[0], "does not compile: " + "; ".join(e[2] for e in errs)[:600])], 0
        # those that are at fault are compiled alone, so are the rest without them
        guilty = [l for a, z, l in ranges if any(e[0] <= z and a <= e[1] for e in errs)]
        if not guilty or len(guilty) == len(items):
            guilty = items[:len(items) // 2]
        bad, n = [], 0
        if len(guilty) < len(items):
            rest = [l for l in items if l not in set(guilty)]
            x, k = try_legal(comp, rest)
            bad, n = bad + x, n + k
        for g in (guilty[:12] if len(guilty) <= 12 or len(guilty) < len(items) // 2 else [guilty]):
            x, k = try_legal(comp, g if isinstance(g, list) else [g])
            bad, n = bad + x, n + k
            if len(bad) > 3:
                break
        if not bad and len(items) > 1:
            bad = [(items, "compile alone, but not in one module: " + "; ".join(e[2] for e in errs)[:600])]
        return bad, n
    r = subprocess.run([b], env=comp.m.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    os.unlink(b)
    bad = []
    by = {l.describe(): l for l in items}
    done = re.search(r"^DONE (\d+)$", r.stdout, re.M)
    for f in re.findall(r"^FAIL (.*)$", r.stdout, re.M):
        l = next((l for d, l in by.items() if f.startswith(d)), items[0])
        bad.append((l, "compiles, but " + f))
    if not done and not bad:
        bad.append((items if len(items) > 1 else items[0], "the program ends with %s: %s" % (r.returncode, r.stdout[-500:])))
    return bad, int(done.group(1)) if done else 0


# --- what must be refused -------------------------------------------------------------------

# types that are none of the three; the second says how to write a type that has to exist for it
OTHER = """bool|String|&'static str|&'static serde_json::Value|serde_json::Value|i64|usize|f64|char|()|Option<ValueType<'static>>
Vec<ValueType<'static>>|Box<ValueType<'static>>|Option<LogicalType>|(LogicalType,)|(ValueType<'static>, LogicalType)|[LogicalType; 1]
&'static [LogicalType]|serde_json_path::NodeList<'static>|other::ValueType|other::LogicalType|other::NodesType|crate::other::ValueType
<LogicalType as other::Id>::Me|fn() -> LogicalType|fn(LogicalType)|std::rc::Rc<LogicalType>|*const LogicalType|Option<NodesType<'static>>
std::borrow::Cow<'static, str>|Vec<&'static serde_json::Value>|std::convert::Infallible|other::ValueTypes|other::Value|other::Alias
&'static LogicalType|&'static mut LogicalType|&'static ValueType<'static>|&'static NodesType<'static>|&'static other::ValueType
Result<LogicalType, ()>|Result<ValueType<'static>, String>|Box<dyn Fn() -> LogicalType>|other::valuetype|other::ValueType_|other::AValueType""".replace("\n", "|").split("|")
OTHER_PARAM = ["impl Into<LogicalType>", "impl Sized", "&'static dyn std::any::Any"]
OTHER_RESULT = ["!", "impl Sized"]
OTHER_MODULE = """mod other {
#![allow(warnings)]
pub struct ValueType; pub struct LogicalType; pub struct NodesType; pub struct ValueTypes; pub struct Value; pub struct valuetype;
pub struct ValueType_; pub struct AValueType;
pub type Alias = serde_json_path::functions::LogicalType;
pub trait Id { type Me; }
impl<T> Id for T { type Me = T; }
}
"""
PATTERNS = ["_", "(LogicalType::True | LogicalType::False)", "LogicalType::True | LogicalType::False", "LogicalType { .. }", "[a]",
            "(a, b)", "other::S { a }", "other::S { .. }", "other::T(a)", "other::T(..)", "&a", "(a)", "&mut a", "..", "1", "other::C", "_a | _b"]


def illegal(thorough):
    """(group, source, whether it compiles without the attribute)"""
    out = []
    fill = {t: LONG[t] + ("" if t == "L" else "<'static>") for t in TYPES}
    n = itertools.count()
    fn = lambda ps, ret, name=None: "fn %s(%s) %s{ loop {} }" % (
        name or "b%d" % next(n), ", ".join(ps), "-> %s " % ret if ret is not None else "")
    sizes = range(1, (4 if thorough else 3) + 1)
    for ty in OTHER + OTHER_PARAM:
        for k in sizes:
            for pos in range(k):
                for rest in itertools.product(TYPES, repeat=k - 1) if thorough or k < 3 else ["VN", "LL", "NV"]:
                    ts = ["p%d: %s" % (i, fill[t]) for i, t in enumerate(rest)]
                    ts.insert(pos, "x: " + ty)
                    for r in (TYPES if k < 3 else "L"):
                        out.append(("other types", fn(ts, fill[r]), True))
    for ty in OTHER + OTHER_RESULT:
        for k in range(0, 4):
            for rest in itertools.product(TYPES, repeat=k):
                out.append(("other results", fn(["p%d: %s" % (i, fill[t]) for i, t in enumerate(rest)], ty), ty != "!"))
    for k in range(0, 4 + thorough):
        for rest in itertools.product(TYPES, repeat=k):
            ps = ["p%d: %s" % (i, fill[t]) for i, t in enumerate(rest)]
            out.append(("no result", fn(ps, None), True))
    for rec in ["self", "&self", "&mut self", "mut self", "self: Self", "self: &Self", "self: Box<Self>", "self: LogicalType",
                "self: ValueType<'static>", "&'static self", "self: std::rc::Rc<Self>", "self: &mut Self"]:
        for k in range(0, 3):
            for rest in itertools.product(TYPES, repeat=k):
                for r in TYPES:
                    ps = [rec] + ["p%d: %s" % (i, fill[t]) for i, t in enumerate(rest)]
                    out.append(("receivers", fn(ps, fill[r]), False))
                    out.append(("receivers", "IMPL" + fn(ps, fill[r]), False))
    for pat in PATTERNS:
        for k in range(1, 4):
            for pos in range(k):
                for t in TYPES if k < 3 else "L":
                    for r in TYPES if k < 3 else "V":
                        ps = ["p%d: %s" % (i, fill["V"]) for i in range(k - 1)]
                        ps.insert(pos, "%s: %s" % (pat, fill[t]))
                        out.append(("patterns", fn(ps, fill[r]), pat == "_"))
    for item in ["struct S%d;", "struct S%d { a: u8 }", "enum E%d { A }", "mod m%d {}", "const C%d: u8 = 1;", "static S%d: u8 = 1;",
                 "type T%d = u8;", "trait T%d {}", "use std::fmt as f%d;", "trait T%d { fn f(v: ValueType) -> LogicalType; }"]:
        out.append(("not functions", item % next(n), True))
    return out


def illegal_program(items, attributed=True):
    src = PRELUDE + OTHER_MODULE
    ranges = []
    at = src.count("\n") + 1
    for i, s in enumerate(items):
        attr = "#[serde_json_path::function] " if attributed else ""
        use = "use super::other; use serde_json_path::functions::*;"
        if s.startswith("IMPL"):
            line = "mod i%d { %s pub struct Me; impl Me { %s%s } }" % (i, use, attr, s[4:])
        else:
            line = "mod i%d { %s %s%s }" % (i, use, attr, s)
        ranges.append(at)
        src += line + "\n"
        at += 1
    return src, ranges


def refused(comp, items):
    """which of the items the compiler does not refuse"""
    src, ranges = illegal_program(items)
    b, errs = comp.compile(src, check=True)
    if b is not None:
        return list(items)
    hit = {x for e in errs for x in range(e[0], e[1] + 1)}
    rest = [s for s, r in zip(items, ranges) if r not in hit]
    if len(rest) == len(items):
        if len(items) == 1:
            return []
        h = len(items) // 2
        return refused(comp, items[:h]) + refused(comp, items[h:])
    # errors of a later stage show only when there are none of an earlier one
    return refused(comp, rest) if rest else []


def chunks(items, size):
    return [items[i:i + size] for i in range(0, len(items), size)]


def check(prop, tier, res, m):
    thorough = tier == "thorough"
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        comp = Compiler(m, work)
        good = [(g, l) for g, l in legal(m, thorough)]
        # one name is registered, and one function defined, once in each program
        programs, taken = [], []
        for g, l in good:
            for p, (idents, names) in zip(programs, taken):
                if len(p) < 130 and l.ident.removeprefix("r#") not in idents and l.jname not in names and l.ident != "main":
                    break
            else:
                p, idents, names = [], set(), set()
                programs.append(p)
                taken.append((idents, names))
            p.append(l)
            idents.add(l.ident.removeprefix("r#"))
            names.add(l.jname)
            if len(p) >= 130:
                i = programs.index(p)
                programs.append(programs.pop(i))
                taken.append(taken.pop(i))
        bad, queries = [], 0
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for x, k in ex.map(lambda p: try_legal(comp, p), [p for p in programs if not any(l.ident == "main" for l in p)]):
                bad += x
                queries += k
        for l, text in bad[:3]:
            ls = l if isinstance(l, list) else [l]
            src, _ = legal_program(ls)
            msg = "%s: %s" % (ls[0].describe() if len(ls) == 1 else "%d functions" % len(ls), text)
            res.violations.append((msg, m.write_replay(prop, {
                "property": prop, "replayer": "sig", "legal": True, "source": src, "message": msg})))
        # what must be refused
        ill = illegal(thorough)
        control = [s for _, s, c in ill if c]
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            for b, errs in ex.map(lambda c: comp.compile(illegal_program(c, False)[0], check=True), chunks(control, 400)):
                if b is None:
                    raise m.CheckError("the programs without the attribute do not compile: %s" % errs[:3])
            accepted = [s for l in ex.map(lambda c: refused(comp, c), chunks([s for _, s, _ in ill], 400)) for s in l]
        for s in sorted(accepted, key=len)[:3]:
            msg = "the attribute does not refuse %s" % s.removeprefix("IMPL")
            res.violations.append((msg, m.write_replay(prop, {
                "property": prop, "replayer": "sig", "legal": False, "item": s, "message": msg})))
        groups = {}
        for g in [g for g, _ in good] + ["refused: " + g for g, _, _ in ill]:
            groups[g] = groups.get(g, 0) + 1
        res.coverage.update(
            states=len(good) + len(ill), transitions=queries, traces_validated_against_impl=len(good) + len(ill),
            exhaustive=True, phases=[{"phase": g, "signatures": n} for g, n in groups.items()], programs=len(programs),
            samples=[l.describe() for _, l in good[::max(1, len(good) // 8)]] + [s for _, s, _ in ill[::max(1, len(ill) // 8)]])
        res.assumptions += ["the compiler's verdict on a signature does not depend on the others in the program, except as tried here"]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(r, m):
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        comp = Compiler(m, work)
        if r["legal"]:
            b, errs = comp.compile(r["source"])
            if b is None:
                print("does not compile:", errs)
                return 1
            o = subprocess.run([b], env=m.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(o.stdout)
            return 1 if "FAIL" in o.stdout or "DONE" not in o.stdout else 0
        a = refused(comp, [r["item"]])
        print("accepted" if a else "refused")
        return 1 if a else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
