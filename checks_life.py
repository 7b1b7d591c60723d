"""C31: what results borrow, by giving the compiler every short chain of calls and letting go of everything it may let go of."""
import concurrent.futures
import json
import shutil
import subprocess
import re
import tempfile

import checks_sig

WORKERS = 8

# What is in a chain. For each: how its content is told, and what it has to be, for the document
# {"k": ["v"]} and a query for its innermost node.
KINDS = {
    "List": ("{x}.iter().map(|v| v.to_string()).collect::<String>()", '"v"'),
    "Node": ("Value::to_string({x})", '"v"'),
    "Vec": ("{x}.iter().map(|v| v.to_string()).collect::<String>()", '"v"'),
    "ListIter": ("{x}.map(|v| v.to_string()).collect::<String>()", '"v"'),
    "LList": ("{x}.iter().map(|n| format!(\"{}{}\", n.location(), n.node())).collect::<String>()", "$['k'][0]\"v\""),
    "LNode": ("format!(\"{}{}\", {x}.location(), {x}.node())", "$['k'][0]\"v\""),
    "LNodeRef": ("format!(\"{}{}\", {x}.location(), {x}.node())", "$['k'][0]\"v\""),
    "LVec": ("{x}.iter().map(|n| format!(\"{}{}\", n.location(), n.node())).collect::<String>()", "$['k'][0]\"v\""),
    "LIter": ("{x}.map(|n| format!(\"{}{}\", n.location(), n.node())).collect::<String>()", "$['k'][0]\"v\""),
    "Locations": ("{x}.map(|n| n.to_string()).collect::<String>()", "$['k'][0]"),
    "Nodes": ("{x}.map(|n| n.to_string()).collect::<String>()", '"v"'),
    "Loc": ("{x}.to_string()", "$['k'][0]"),
    "LocRef": ("{x}.to_string()", "$['k'][0]"),
    "Elems": ("{x}.map(|e| el(std::borrow::Borrow::borrow(&e))).collect::<String>()", "k0"),
    "ElemSlice": ("{x}.iter().map(el).collect::<String>()", "k0"),
    "Name": ("el(&{x})", "k"),
    "NameRef": ("el({x})", "k"),
    "Index": ("el(&{x})", "0"),
    "IndexRef": ("el({x})", "0"),
    "Str": ("{x}.to_string()", "k"),
    "StrName": ("{x}.to_string()", "k"),
    "Number": ("{x}.to_string()", "0"),
    "PathText": ("{x}.to_string()", "$['k'][0]"),
    "Pointer": ("{x}.to_string()", "/k/0"),
    "Json": ("({x}.is_array() || {x}.is_string()).to_string()", "true"),
    "NodesType": ("{x}.iter().map(|v| v.to_string()).collect::<String>()", '"v"'),
    "ValueType": ("{x}.as_value().map(|v| v.to_string()).unwrap_or_default()", '"v"'),
    "Size": ("{x}.to_string()", "1"),
}

# from, call, to, whether it takes the object away, what the result may borrow: what the object
# itself borrows ("same"), the object too ("it"), nothing ("none")
EDGES = [
    ("List", "{x}.clone()", "List", False, "same"),
    ("List", "{x}.at_most_one().unwrap().unwrap()", "Node", False, "same"),
    ("List", "{x}.exactly_one().unwrap()", "Node", False, "same"),
    ("List", "{x}.first().unwrap()", "Node", False, "same"),
    ("List", "{x}.last().unwrap()", "Node", False, "same"),
    ("List", "{x}.get(0).unwrap()", "Node", False, "same"),
    ("List", "{x}.one().unwrap()", "Node", True, "same"),
    ("List", "{x}.all()", "Vec", True, "same"),
    ("List", "{x}.iter()", "ListIter", False, "it"),
    ("List", "{x}.into_iter()", "ListIter", True, "same"),
    ("List", "{x}.len()", "Size", False, "none"),
    ("List", "serde_json::to_value(&{x}).unwrap()", "Json", False, "none"),
    ("List", "NodesType::from({x})", "NodesType", True, "same"),
    ("Vec", "NodeList::from({x})", "List", True, "same"),
    ("Vec", "NodesType::from({x})", "NodesType", True, "same"),
    ("Vec", "{x}[0]", "Node", False, "same"),
    ("ListIter", "{x}.clone().next().unwrap()", "Node", False, "sameish"),
    ("NodesType", "{x}.clone()", "NodesType", False, "same"),
    ("NodesType", "{x}.all()", "Vec", True, "same"),
    ("NodesType", "{x}.first().unwrap()", "Node", False, "same"),
    ("NodesType", "{x}.into_iter()", "ListIter", True, "same"),
    ("Node", "serde_json_path::functions::ValueType::Node({x})", "ValueType", False, "same"),
    ("Node", "{x}.json_path(&$everything).exactly_one().unwrap()", "Node", False, "same"),
    ("Node", "$everything.query({x})", "List", False, "same"),
    ("ValueType", "{x}.as_value().unwrap()", "Node", False, "it"),
    ("ValueType", "{x}.clone()", "ValueType", False, "same"),
    ("LList", "{x}.clone()", "LList", False, "same"),
    ("LList", "{x}.at_most_one().unwrap().unwrap()", "LNode", True, "same"),
    ("LList", "{x}.exactly_one().unwrap()", "LNode", True, "same"),
    ("LList", "{x}.all()", "LVec", True, "same"),
    ("LList", "{x}.iter()", "LIterRef", False, "it"),
    ("LList", "{x}.into_iter()", "LIter", True, "same"),
    ("LList", "{x}.locations()", "Locations", False, "it"),
    ("LList", "{x}.nodes()", "Nodes", False, "it"),
    ("LList", "{x}.dedup()", "LList", True, "same"),
    ("LList", "{ let mut l = {x}; l.dedup_in_place(); l }", "LList", True, "same"),
    ("LList", "{x}.first().unwrap()", "LNodeRef", False, "it"),
    ("LList", "{x}.last().unwrap()", "LNodeRef", False, "it"),
    ("LList", "{x}.get(0).unwrap()", "LNodeRef", False, "it"),
    ("LList", "{x}.len()", "Size", False, "none"),
    ("LList", "serde_json::to_value(&{x}).unwrap()", "Json", False, "none"),
    ("LIterRef", "{x}.clone().next().unwrap()", "LNodeRef", False, "sameish"),
    ("LIter", "{ let mut i = {x}; i.next().unwrap() }", "LNode", True, "same"),
    ("Locations", "{ let mut i = {x}; i.next().unwrap() }", "LocRef", True, "same"),
    ("Nodes", "{ let mut i = {x}; i.next().unwrap() }", "Node", True, "same"),
    ("LVec", "LocatedNodeList::from({x})", "LList", True, "same"),
    ("LVec", "{x}[0].clone()", "LNode", False, "same"),
    ("LNode", "{x}.clone()", "LNode", False, "same"),
    ("LNode", "{x}.location()", "LocRef", False, "it"),
    ("LNode", "{x}.node()", "Node", False, "same"),
    ("LNode", "{x}.to_location()", "Loc", True, "same"),
    ("LNode", "NormalizedPath::from({x})", "Loc", True, "same"),
    ("LNode", "&{x}", "LNodeRef", False, "it"),
    ("LNodeRef", "{x}.location()", "LocRef", False, "same"),
    ("LNodeRef", "{x}.node()", "Node", False, "apart"),
    ("LNodeRef", "{x}.clone()", "LNode", False, "apart"),
    ("LocRef", "{x}.clone()", "Loc", False, "apart"),
    ("LocRef", "{x}.iter()", "Elems", False, "same"),
    ("LocRef", "{x}.get(0..2).unwrap()", "ElemSlice", False, "same"),
    ("LocRef", "{x}.get(0).unwrap()", "NameRef", False, "same"),
    ("LocRef", "{x}.first().unwrap()", "NameRef", False, "same"),
    ("LocRef", "{x}.last().unwrap()", "IndexRef", False, "same"),
    ("LocRef", "{x}.to_json_pointer()", "Pointer", False, "none"),
    ("LocRef", "{x}.to_string()", "PathText", False, "none"),
    ("Loc", "{x}.clone()", "Loc", False, "same"),
    ("Loc", "&{x}", "LocRef", False, "it"),
    ("Loc", "{x}.into_iter()", "Elems", True, "same"),
    ("Loc", "{x}.get(1).unwrap()", "IndexRef", False, "it"),
    ("Loc", "{x}.to_json_pointer()", "Pointer", False, "none"),
    ("Loc", "{x}.len() - 1", "Size", False, "none"),
    ("Loc", "serde_json::to_value(&{x}).unwrap()", "Json", False, "none"),
    ("Elems", "{ let mut i = {x}; i.next().unwrap().clone() }", "Name", True, "apart"),
    ("ElemSlice", "{x}[0].clone()", "Name", False, "apart"),
    ("ElemSlice", "&{x}[1]", "IndexRef", False, "same"),
    ("NameRef", "{x}.clone()", "Name", False, "apart"),
    ("NameRef", "{x}.as_name().unwrap()", "Str", False, "same"),
    ("Name", "{x}.as_name().unwrap()", "Str", False, "it"),
    ("Name", "match {x} { PathElement::Name(n) => n, _ => unreachable!() }", "StrName", True, "same"),
    ("Name", "{x}.clone()", "Name", False, "same"),
    ("Name", "&{x}", "NameRef", False, "it"),
    ("IndexRef", "{x}.as_index().unwrap()", "Number", False, "none"),
    ("IndexRef", "{x}.clone()", "Index", False, "apart"),
    ("Index", "{x}.as_index().unwrap()", "Number", False, "none"),
    ("Index", "{x}.clone()", "Index", False, "same"),
]
KINDS["LIterRef"] = KINDS["LIter"]

# how a path comes about, from a text in a local of its own
PATHS = [
    "JsonPath::parse(&text).unwrap()",
    "text.parse::<JsonPath>().unwrap()",
    "serde_json::from_str::<JsonPath>(&json).unwrap()",
    "serde_json::from_slice::<JsonPath>(json.as_bytes()).unwrap()",
    "serde_json::from_value::<JsonPath>(Value::from(text.as_str())).unwrap()",
    "JsonPath::deserialize(&Value::from(text.as_str())).unwrap()",
    "JsonPath::parse(&text).unwrap().clone()",
    "{ let p = JsonPath::parse(&text).unwrap(); JsonPath::parse(&p.to_string()).unwrap() }",
]
STARTS = [("path.query(&doc)", "List"), ("doc.json_path(&path)", "List"), ("path.query_located(&doc)", "LList")]
QUERIES = ["$.k[0]", "$['k'][-1]", "$..[?@=='v']", "$.*[?match(@,'v')]", "$[?@[0]==$.k[0]][0]", "$[?count(@.*)==1][0:1:1]"]

USES = """#![allow(warnings)]
use serde::Deserialize; use serde_json::Value;
use serde_json_path::{AtMostOneError, ExactlyOneError, JsonPath, JsonPathExt, LocatedNode, LocatedNodeList, NodeList, NormalizedPath, ParseError, PathElement};
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
fn doc_() -> Value { serde_json::from_str("{\\"k\\": [\\"v\\"]}").unwrap() }
fn el(e: &PathElement) -> String { e.as_name().map(String::from).or(e.as_index().map(|i| i.to_string())).unwrap() }
fn scribble() -> Vec<Box<[u8; 48]>> { (0..64).map(|_| Box::new([0x5a; 48])).collect() }
fn everything() -> &'static JsonPath { static P: std::sync::OnceLock<JsonPath> = std::sync::OnceLock::new(); P.get_or_init(|| JsonPath::parse("$").unwrap()) }
"""


def chains(depth):
    """all chains of up to `depth` calls: [(start, kind, [edges])]"""
    out = []
    for s in range(len(STARTS)):
        front = [(s, STARTS[s][1], ())]
        out += front
        for _ in range(depth):
            front = [(s, e[2], es + (e,)) for s, k, es in front for e in EDGES if e[0] == k]
            out += front
    return out


def program(name, chain, query, path, let_go=None):
    """the function, what its result has to tell, and what its result borrows"""
    s, kind, es = chain
    lines = ["let text = String::from(%s);" % json.dumps(query), "let json = serde_json::to_string(&text).unwrap();",
             "let doc = doc_();", "let path = %s;" % path, "let x0 = %s;" % STARTS[s][0]]
    # what each borrows; behind the first of a pair: what remains when it is copied out of its place
    deps, inner = [{"doc"}], [{"doc"}]
    gone = set()
    for i, (_, call, to, takes, borrow) in enumerate(es):
        x = "x%d" % i
        call = call.replace("$everything", "everything()")
        lines.append("let x%d = %s;" % (i + 1, call.replace("{x}", x)))
        if takes:
            gone.add(x)
        d = {"same": deps[-1], "sameish": deps[-1], "it": deps[-1] | {x}, "none": set(), "apart": inner[-1]}[borrow]
        n = {"same": inner[-1], "sameish": inner[-1], "it": inner[-1], "none": set(), "apart": inner[-1]}[borrow]
        if to in ("Node", "ListIter", "Locations", "Nodes") and borrow == "it":
            n = d       # the references themselves are tied to what they were taken from
        deps.append(d)
        inner.append(n)
    last = "x%d" % len(es)
    mine = deps[-1]
    names = ["text", "json", "doc", "path"] + ["x%d" % i for i in range(len(es))]
    if let_go is None:
        free = [n for n in reversed(names) if n not in mine and n not in gone]
        # what stays is needed by the result, so nothing that stays refers to what goes
    else:
        free = [let_go]
    lines += ["drop(%s);" % n for n in free]
    lines.append("let s = scribble();")
    lines.append("let told = %s;" % KINDS[kind][0].replace("{x}", last))
    lines.append("drop(s); told")
    told = KINDS[kind][1]
    return "fn %s() -> String { %s }" % (name, " ".join(lines)), told, mine


def describe(chain, path, query):
    s, _, es = chain
    t = STARTS[s][0]
    for e in es:
        t = e[1].replace("{x}", t).replace("$everything", "everything")
    return t if path == PATHS[0] else "%s, where path is %s" % (t, path)


# programs about paths and errors, which borrow nothing, and the types
OWNED = [
    ("a path outlives its text", "let text = String::from(\"$.k\"); let path = %s; drop(text); path.query(&doc_()).len().to_string()" % "JsonPath::parse(&text).unwrap()", "1"),
    ("a path is 'static", "fn s<T: 'static>(t: T) -> T { t } s(JsonPath::parse(\"$.k\").unwrap()).query(&doc_()).len().to_string()", "1"),
    ("a parse error outlives its text", "let text = String::from(\"$.\"); let e = JsonPath::parse(&text).unwrap_err(); drop(text); let _: &str = e.message(); format!(\"{}\", e.position() > 0)", "true"),
    ("a parse error is an error for any thread", "fn f() -> Result<JsonPath, Box<dyn std::error::Error + Send + Sync + 'static>> { let text = String::from(\"$.\"); Ok(JsonPath::parse(&text)?) } f().is_err().to_string()", "true"),
    ("the error of at_most_one outlives the list and the document", "let e = { let doc = doc_(); let p = JsonPath::parse(\"$..*\").unwrap(); let l = p.query(&doc); let e = l.at_most_one().unwrap_err(); drop(l); drop(p); drop(doc); e }; e.0.to_string()", "2"),
    ("the error of at_most_one of a located list outlives the document", "let e = { let doc = doc_(); let p = JsonPath::parse(\"$..*\").unwrap(); let l = p.query_located(&doc); let e = l.at_most_one().unwrap_err(); drop(p); drop(doc); e }; e.0.to_string()", "2"),
    ("the error of exactly_one outlives the list and the document", "let e: ExactlyOneError = { let doc = doc_(); let p = JsonPath::parse(\"$.x\").unwrap(); let l = p.query(&doc); let e = l.exactly_one().unwrap_err(); drop(l); drop(p); drop(doc); e }; e.is_empty().to_string()", "true"),
    ("the error of exactly_one of a located list outlives the document", "let e: ExactlyOneError = { let doc = doc_(); let p = JsonPath::parse(\"$.x\").unwrap(); let e = p.query_located(&doc).exactly_one().unwrap_err(); drop(p); drop(doc); e }; e.is_empty().to_string()", "true"),
    ("errors go through the question mark", "fn f(p: &JsonPath) -> Result<String, Box<dyn std::error::Error + Send + Sync>> { let doc = doc_(); let a = p.query(&doc).exactly_one()?.to_string(); let b = p.query_located(&doc).exactly_one()?.location().to_string(); p.query(&doc).at_most_one()?; p.query_located(&doc).at_most_one()?; Ok(a + &b) } f(&JsonPath::parse(\"$.k[0]\").unwrap()).unwrap()", "\"v\"$['k'][0]"),
    ("one path, many documents", "let p = JsonPath::parse(\"$.k[0]\").unwrap(); let a = doc_(); let l = p.query(&a); { let b = doc_(); let m = p.query(&b); assert_eq!(l, m); } let m = { let p = p.clone(); p.query(&a) }; format!(\"{}\", l == m)", "true"),
    ("a path is replaced while its results live", "let mut p = JsonPath::parse(\"$.k[0]\").unwrap(); let a = doc_(); let l = p.query(&a); p = JsonPath::parse(\"$.k\").unwrap(); let m = p.query_located(&a); p = JsonPath::default(); format!(\"{}{}\", l.len(), m.len())", "11"),
    ("results leave the function that made them", "fn f<'d>(doc: &'d Value, q: &str) -> (NodeList<'d>, LocatedNodeList<'d>, &'d Value, NormalizedPath<'d>) { let p = JsonPath::parse(q).unwrap(); (p.query(doc), p.query_located(doc), doc.json_path(&p).exactly_one().unwrap(), p.query_located(doc).exactly_one().unwrap().to_location()) } let d = doc_(); let (a, b, c, e) = f(&d, &String::from(\"$.k[0]\")); format!(\"{}{}{c}{e}\", a.len(), b.len())", "11\"v\"$['k'][0]"),
    ("results are collected from many lists", "fn f<'d>(docs: &'d [Value]) -> Vec<&'d Value> { docs.iter().flat_map(|d| JsonPath::parse(\"$.k[0]\").unwrap().query(d)).collect() } let d = vec![doc_(), doc_()]; format!(\"{}\", f(&d).len())", "2"),
    ("locations are collected from many lists", "fn f<'d>(docs: &'d [Value]) -> Vec<NormalizedPath<'d>> { docs.iter().flat_map(|d| JsonPath::parse(\"$.k[0]\").unwrap().query_located(d)).map(|n| n.to_location()).collect() } let d = vec![doc_(), doc_()]; format!(\"{}\", f(&d).len())", "2"),
    ("a pointer outlives everything and changes the document", "let mut d = doc_(); let p = { let p = JsonPath::parse(\"$.k[0]\").unwrap(); let l = p.query_located(&d); let n = l.first().unwrap(); n.location().to_json_pointer() }; *d.pointer_mut(&p).unwrap() = Value::from(1); d.to_string()", "{\"k\":[1]}"),
    ("names of elements outlive their location", "fn f<'d>(doc: &'d Value) -> &'d str { let l = JsonPath::parse(\"$.k\").unwrap().query_located(doc); let n = l.into_iter().next().unwrap().to_location(); match n.into_iter().next() { Some(PathElement::Name(n)) => n, _ => \"\" } } let d = doc_(); f(&d).to_string()", "k"),
]
THREADS = [
    ("path", "JsonPath::parse(\"$.k[0]\").unwrap()", "{x}.query(&doc).len().to_string()", "1"),
    ("list", "p.query(&doc)", "{x}.len().to_string()", "1"),
    ("iterator of a list", "p.query(&doc).into_iter()", "{x}.count().to_string()", "1"),
    ("located list", "p.query_located(&doc)", "{x}.len().to_string()", "1"),
    ("iterator of a located list", "p.query_located(&doc).into_iter()", "{x}.count().to_string()", "1"),
    ("locations", "located.locations()", "{x}.count().to_string()", "1"),
    ("nodes", "located.nodes()", "{x}.count().to_string()", "1"),
    ("located node", "p.query_located(&doc).exactly_one().unwrap()", "{x}.location().to_string()", "$['k'][0]"),
    ("location", "p.query_located(&doc).exactly_one().unwrap().to_location()", "{x}.to_string()", "$['k'][0]"),
    ("element", "located.first().unwrap().location().first().unwrap().clone()", "el(&{x})", "k"),
    ("node", "p.query(&doc).exactly_one().unwrap()", "{x}.to_string()", "\"v\""),
    ("parse error", "JsonPath::parse(\"$.\").unwrap_err()", "({x}.position() > 0).to_string()", "true"),
    ("at most one error", "JsonPath::parse(\"$..*\").unwrap().query(&doc).at_most_one().unwrap_err()", "{x}.0.to_string()", "2"),
    ("exactly one error", "JsonPath::parse(\"$..*\").unwrap().query(&doc).exactly_one().unwrap_err()", "{x}.as_more_than_one().unwrap().to_string()", "2"),
    ("argument of nodes", "NodesType::from(p.query(&doc))", "{x}.len().to_string()", "1"),
    ("argument value", "ValueType::Node(&doc)", "{x}.as_value().is_some().to_string()", "true"),
    ("logical value", "LogicalType::True", "({x} == LogicalType::True).to_string()", "true"),
]
LIVES = ["NodeList", "LocatedNodeList", "LocatedNode", "NormalizedPath", "PathElement", "NodesType", "ValueType"]


def owned():
    out = [(d, "fn {n}() -> String { %s }" % b, t) for d, b, t in OWNED]
    for d, make, tell, told in THREADS:
        pre = "let doc = doc_(); let p = JsonPath::parse(\"$.k[0]\").unwrap(); let located = p.query_located(&doc); let x = %s;" % make
        out.append(("moved to another thread: " + d, "fn {n}() -> String { %s std::thread::scope(|s| s.spawn(move || %s).join().unwrap()) }" % (
            pre, tell.replace("{x}", "x")), told))
        if not d.startswith("iterator") and d not in ("locations", "nodes"):
            out.append(("shared by two threads: " + d, "fn {n}() -> String { %s let (r, doc) = (&x, &doc); let f = move || %s; std::thread::scope(|s| { let a = s.spawn(f); let b = f(); assert_eq!(a.join().unwrap(), b); b }) }" % (
                pre, tell.replace("{x}", "r").replace("(r == ", "(*r == ")), told))
    for t in LIVES:
        out.append(("shortened: " + t, "fn {n}() -> String { fn f<'s, 'l: 's>(x: %s<'l>) -> %s<'s> { x } fn g<'s, 'l: 's>(x: Vec<&'s %s<'l>>) -> Vec<&'s %s<'s>> { x } String::new() }" % (t, t, t, t), ""))
    for t in ["JsonPath", "ParseError", "AtMostOneError", "ExactlyOneError", "LogicalType"]:
        out.append(("owns what it has: " + t, "fn {n}() -> String { fn f<T: 'static + Send + Sync + std::fmt::Debug>() {} f::<%s>(); String::new() }" % t, ""))
    return out


def run_program(comp, fns):
    """functions (name, source, told, what) as one program; [(fn, what goes wrong)]"""
    src = USES
    at = src.count("\n") + 1
    lines = {}
    for f in fns:
        lines[at] = f
        src += f[1] + "\n"
        at += 1
    src += "fn main() {\n" + "".join("match std::panic::catch_unwind(%s) { Ok(t) if t == %s => (), r => println!(\"FAIL %s {r:?}\") }\n" % (
        f[0], checks_sig.rust_str(f[2]), f[0]) for f in fns) + "println!(\"DONE\");\n}\n"
    b, errs = comp.compile(src)
    if b is None:
        bad = {}
        for e in errs:
            for l in range(e[0], e[1] + 1):
                if l in lines:
                    bad.setdefault(lines[l], "is refused: " + e[2])
        if not bad:
            # perhaps too much at once; one by one
            if len(fns) == 1:
                return [(fns[0], "is refused: " + "; ".join(e[2] for e in errs)[:300])]
            return run_program(comp, fns[:len(fns) // 2]) + run_program(comp, fns[len(fns) // 2:])
        rest = [f for f in fns if f not in bad]
        more = run_program(comp, rest) if rest and len(bad) < 40 else []
        return list(bad.items()) + more
    r = subprocess.run([b], env=comp.m.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    bad = []
    by = {f[0]: f for f in fns}
    for n, t in re.findall(r"^FAIL (\w+) (.*)$", r.stdout, re.M):
        bad.append((by[n], "gives %s instead of %r" % (t[:200], by[n][2])))
    if not bad and not re.search(r"^DONE$", r.stdout, re.M):
        if len(fns) == 1:
            return [(fns[0], "ends with %s: %s" % (r.returncode, r.stdout[-300:]))]
        return run_program(comp, fns[:len(fns) // 2]) + run_program(comp, fns[len(fns) // 2:])
    return bad


def not_refused(comp, fns):
    src = USES
    at = src.count("\n") + 1
    lines = {}
    for f in fns:
        lines[at] = f
        src += f[1] + "\n"
        at += 1
    b, errs = comp.compile(src, check=True)
    hit = {l for e in errs for l in range(e[0], e[1] + 1)}
    return [f for l, f in lines.items() if l not in hit]


HOLDERS = {"List", "Node", "Vec", "ListIter", "LList", "LNode", "LNodeRef", "LVec", "LIter", "LIterRef", "Nodes", "NodesType", "ValueType"}


def check(prop, tier, res, m):
    thorough = tier == "thorough"
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        comp = checks_sig.Compiler(m, work)
        depth = 6 if thorough else 4
        cs = chains(depth)
        good, refuse, phases = [], [], {}
        n = 0

        def add(c, q, p, phase):
            nonlocal n
            src, told, mine = program("f%d" % n, c, q, p)
            good.append(("f%d" % n, src, told, "%s, query %s" % (describe(c, p, q), q)))
            n += 1
            phases[phase] = phases.get(phase, 0) + 1
            return mine

        for i, c in enumerate(cs):
            mine = add(c, QUERIES[i % len(QUERIES)], PATHS[0], "chains of calls")
            if "doc" in mine and c[1] in HOLDERS and (len(c[2]) < depth or thorough):
                src, _, _ = program("f%d" % n, c, QUERIES[0], PATHS[0], "doc")
                refuse.append(("f%d" % n, src, "", describe(c, PATHS[0], QUERIES[0])))
                n += 1
        for c in [c for c in cs if len(c[2]) <= 1 + thorough]:
            for p in PATHS[1:]:
                for q in QUERIES:
                    add(c, q, p, "ways to make a path")
        for d, s, t in owned():
            good.append(("f%d" % n, s.replace("{n}", "f%d" % n), t, d))
            n += 1
            phases["paths, errors, threads"] = phases.get("paths, errors, threads", 0) + 1
        size = 300
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            bad = [b for l in ex.map(lambda f: run_program(comp, f), checks_sig.chunks(good, size)) for b in l]
            free = [f for l in ex.map(lambda f: not_refused(comp, f), checks_sig.chunks(refuse, size)) for f in l]
        seen = set()
        bad.sort(key=lambda b: len(b[0][1]))
        for f, text in bad:
            if len(res.violations) >= 3:
                break
            key = text[:60]
            if key in seen:
                continue
            seen.add(key)
            msg = "%s, everything it does not need let go of: %s" % (f[3], text)
            res.violations.append((msg, m.write_replay(prop, {"property": prop, "replayer": "life", "fn": list(f), "good": True, "message": msg})))
        for f in sorted(free, key=lambda f: len(f[1]))[:3]:
            msg = "the document may be dropped while %s is still in use" % f[3]
            res.violations.append((msg, m.write_replay(prop, {"property": prop, "replayer": "life", "fn": list(f), "good": False, "message": msg})))
        phases["document dropped too early (to be refused)"] = len(refuse)
        res.coverage.update(
            states=sum(len(c[2]) + 1 for c in cs), transitions=sum(len(c[2]) for c in cs), traces_validated_against_impl=len(good) + len(refuse),
            exhaustive=True, phases=[{"phase": p, "programs": k} for p, k in phases.items()],
            samples=[f[3] for f in good[::max(1, len(good) // 12)]])
        res.assumptions += ["the compiler's verdict on a function does not depend on the others in the program"]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(r, m):
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        comp = checks_sig.Compiler(m, work)
        f = tuple(r["fn"])
        bad = run_program(comp, [f]) if r["good"] else [(f, "is accepted") for f in not_refused(comp, [f])]
        for f, text in bad:
            print(f[3], text)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
