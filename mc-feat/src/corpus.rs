//! The queries, all of each kind, and the documents.
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn docs() -> Vec<Value> {
    vec![
        json!(null),
        json!(1),
        json!("ab"),
        json!([]),
        json!({}),
        json!([1, "a", null, true, [], {}, 1.5, "é", [1, 2]]),
        json!({"a": 1, "b": "ab", "c": [1, "b"], "é": {"a": null}}),
        json!([{"a": 1, "b": 2}, {"a": "ab", "b": "a.*"}, {"b": [{"a": 1}, {"a": 2}], "a": [1, 2]}, {"a": null, "b": false}]),
        json!({"a": {"a": {"a": 1, "b": 1}}, "b": [[["ab", "b"], "x"], "ab"], "c": "a.c"}),
        json!([["a", "b"], ["ab", "ab"], ["1", 1], [{"a": [0]}, {"a": []}]]),
        // long texts with a character's first byte at every offset
        ["é", "€", "😀"].iter().flat_map(|c| (0..c.len()).map(|i| "a".repeat(i) + &c.repeat(12))).map(|t| (t.clone(), json!({"a": t}))).collect::<serde_json::Map<_, _>>().into(),
    ]
}

const SEGMENTS: &[&str] = &[
    ".a", "['b']", "[\"é\"]", "[0]", "[-1]", "[9]", "[*]", ".*", "..a", "..*", "..[0]", "[0,1]", "['a','b']", "[0,'a',*]",
    "[1:]", "[:2]", "[::-1]", "[::0]", "[-1:0:-2]", "[?@]", "[?@.a]", "[?@.a==1]", "[?@.a!=@.b]", "[?!@.a]", "..[?@.a]",
    "[?@[?@.a]]", "[?$.a]", "[?length(@.a)>1]", "[?count(@.*)>1]", "[?value(@..a)==1]", "[?match(@.a,'a.*')]", "[?search(@,'b')]", " [ 0 ] ",
    "[?vv(@.a)=='AB']", "[?nl(@.*)]", "[01]", "[]", ".", "[?@.a=1]", "[? @.a == 1 || @.b == 'ab' && !@.c ]",
];

const OPERANDS: &[&str] = &[
    "1", "-0", "1.5e0", "'a'", "\"ab\"", "null", "true", "false", "@", "@.a", "@['b'][0]", "$", "$.a", "@.*", "@..a", "$[*]",
    "@[?@.a]", "length(@.a)", "length('ab')", "count(@.*)", "value(@.*)", "match(@.a,'a')", "search(@.b,'.')", "vv(@.a)", "nl(@.*)",
    "ln(@.a,@.*)", "ln(match(@.a,'ab'),$..*)", "(@.a)", "!@.a", "f(@)", "Length(@)", "'\\u00e9'", "@.a==1",
];

const NAMES: &[&str] = &["length", "count", "value", "match", "search", "vv", "nl", "ln", "f", "matchx", "sea", "regex"];

/// queries of which all single edits are made
const SEEDS: &[&str] = &[
    "$", "$.a", "$['a']", "$[0]", "$[-1:2:3]", "$..a", "$..[*]", "$.*", "$[0,1]", "$[?@.a]", "$[?@.a==1]", "$[?@.a<=1.5e-1]", "$[?!(@.a)]",
    "$[?@.a&&@.b||$]", "$[?length(@.a)==2]", "$[?count(@.*)>=1]", "$[?value(@.a)!='b']", "$[?match(@.a,'ab')]", "$[?search(@.b,\"b\")]",
    "$[?!search(@,'a')&&@.a]", "$[?vv(@)==1]", "$[?nl(@..*)]", "$[?ln(nl(@.*),@.a)>0]", "$[?length(value(@.*))==1]", "$[?vv('match(')==@.a]",
    "$[?'search(@)'==@.a]", "$['match(@)']", "$[?match(vv(@),'A')]", "$.match", "$.functions", "$[?@.regex]", "$['\\ud83d\\ude00']",
];

const EDITS: &str = "$@.*[]()?!='\"a1-0,: &|<>\\é_e";

pub fn queries(thorough: bool) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    // paths
    v.insert("$".into());
    for a in SEGMENTS {
        v.insert(format!("${a}"));
        v.insert(format!("$[?@{a}]"));
        for b in SEGMENTS {
            v.insert(format!("${a}{b}"));
            v.insert(format!("$[?@{a}{b}]"));
            if thorough {
                for c in SEGMENTS {
                    v.insert(format!("${a}{b}{c}"));
                }
            }
        }
    }
    // filters
    for a in OPERANDS {
        v.insert(format!("$[?{a}]"));
        v.insert(format!("$..[?!{a}]"));
        for b in OPERANDS {
            for op in ["==", "!=", "<", "<=", ">", ">="] {
                v.insert(format!("$[?{a}{op}{b}]"));
                v.insert(format!("$..[?@.b||{a} {op} {b}]"));
            }
            for op in ["&&", "||"] {
                v.insert(format!("$[?{a}{op}{b}]"));
                v.insert(format!("$..[?!({a} {op} {b})]"));
            }
            v.insert(format!("$[?{a},?{b}]"));
            if thorough {
                for c in OPERANDS {
                    for (o, p) in [("&&", "||"), ("||", "&&"), ("==", "&&"), ("<", "||"), ("&&", "=="), ("||", "!=")] {
                        v.insert(format!("$[?{a}{o}{b}{p}{c}]"));
                    }
                }
            }
        }
    }
    // calls
    let with = |call: &str, v: &mut BTreeSet<String>| {
        for f in ["$[?{}]", "$[?!{}]", "$[?{}==1]", "$[?'AB'=={}]", "$..[?length({})>0]", "$[?nl({})]", "$[?match({},'.*')]", "$[?@.a&&({}||@.b)]"] {
            v.insert(f.replace("{}", call));
        }
    };
    for n in NAMES {
        with(&format!("{n}()"), &mut v);
        for a in OPERANDS {
            with(&format!("{n}({a})"), &mut v);
            for b in OPERANDS {
                with(&format!("{n}({a},{b})"), &mut v);
                if thorough && matches!(*n, "match" | "search" | "ln" | "count") {
                    for c in OPERANDS.iter().step_by(3) {
                        v.insert(format!("$[?{n}({a},{b},{c})]"));
                    }
                }
            }
        }
    }
    // lengths: a run of wide characters that begins at every offset
    for n in 0..if thorough { 300 } else { 72 } {
        for c in ["é", "€", "😀"] {
            let t = "a".repeat(n) + &c.repeat(50);
            for f in ["$!{}", "{}", "$.{}", "$.{}!", "$['{}']", "$['{}", "$[?@.{}==1]", "$[?@=='{}']", "$[?@.a!={}]", "$[?match(@.a,'{}')]", "$[?{}(@)]", "$[{}]", "$ {} ]"] {
                v.insert(f.replace("{}", &t));
            }
        }
    }
    // edits
    let edits = |s: &str| {
        let c: Vec<char> = s.chars().collect();
        let mut out = vec![];
        for i in 0..=c.len() {
            let (l, r) = (c[..i].iter().collect::<String>(), c[i..].iter().collect::<String>());
            if i < c.len() {
                let r: String = c[i + 1..].iter().collect();
                out.push(format!("{l}{r}"));
                out.extend(EDITS.chars().map(|e| format!("{l}{e}{r}")));
            }
            out.extend(EDITS.chars().map(|e| format!("{l}{e}{r}")));
        }
        out
    };
    for s in SEEDS {
        v.insert(s.to_string());
        let once = edits(s);
        if thorough {
            for e in once.iter().filter(|e| e.chars().count() <= 16) {
                v.extend(edits(e));
            }
        }
        v.extend(once);
    }
    v.into_iter().collect()
}
