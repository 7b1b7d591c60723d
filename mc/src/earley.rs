//! Earley recogniser for the ABNF of RFC 9535 (`rfc9535.abnf`, Appendix A of the RFC).
//!
//! It answers, character by character, whether a string is a sentence and whether it can still be
//! extended to one (viable prefix). Used to prune the exploration of strings, and to validate the
//! reference parser against the RFC's own grammar.

use std::collections::HashMap;
use std::sync::LazyLock;

#[derive(Clone, Debug)]
enum Sym {
    T(Vec<(u32, u32)>),
    N(usize),
}

pub struct Grammar {
    /// productions of each nonterminal
    prods: Vec<Vec<usize>>,
    /// (left-hand side, right-hand side)
    rules: Vec<(usize, Vec<Sym>)>,
    nullable: Vec<bool>,
    start: usize,
}

pub static GRAMMAR: LazyLock<Grammar> =
    LazyLock::new(|| Grammar::from_abnf(include_str!("rfc9535.abnf"), "jsonpath-query"));

struct Builder {
    names: HashMap<String, usize>,
    prods: Vec<Vec<usize>>,
    rules: Vec<(usize, Vec<Sym>)>,
}

impl Builder {
    fn nt(&mut self, name: &str) -> usize {
        if let Some(&n) = self.names.get(name) {
            return n;
        }
        let n = self.prods.len();
        self.prods.push(vec![]);
        self.names.insert(name.into(), n);
        n
    }
    fn fresh(&mut self) -> usize {
        let name = format!("#{}", self.prods.len());
        self.nt(&name)
    }
    fn rule(&mut self, lhs: usize, rhs: Vec<Sym>) {
        self.prods[lhs].push(self.rules.len());
        self.rules.push((lhs, rhs));
    }
    fn alternation(&mut self, t: &mut Toks) -> Vec<Vec<Sym>> {
        let mut alts = vec![self.concatenation(t)];
        while t.eat("/") {
            alts.push(self.concatenation(t));
        }
        alts
    }
    fn as_nt(&mut self, alts: Vec<Vec<Sym>>) -> usize {
        let n = self.fresh();
        for a in alts {
            self.rule(n, a);
        }
        n
    }
    fn concatenation(&mut self, t: &mut Toks) -> Vec<Sym> {
        let mut v = vec![];
        while let Some(tok) = t.peek() {
            if matches!(tok.as_str(), "/" | ")" | "]") {
                break;
            }
            let tok = t.next();
            // repetition prefix
            let (lo, star, tok) = if tok == "*" {
                (0, true, t.next())
            } else if tok.chars().all(|c| c.is_ascii_digit()) {
                let lo: usize = tok.parse().unwrap();
                if t.eat("*") {
                    (lo, true, t.next())
                } else {
                    (lo, false, t.next())
                }
            } else {
                (1, false, tok)
            };
            let elem: Vec<Sym> = match tok.as_str() {
                "(" => {
                    let alts = self.alternation(t);
                    assert!(t.eat(")"));
                    vec![Sym::N(self.as_nt(alts))]
                }
                "[" => {
                    let mut alts = self.alternation(t);
                    assert!(t.eat("]"));
                    alts.push(vec![]);
                    vec![Sym::N(self.as_nt(alts))]
                }
                s if s.starts_with('"') => s[1..s.len() - 1]
                    .chars()
                    .map(|c| {
                        // ABNF strings are case-insensitive
                        let (l, u) = (c.to_ascii_lowercase() as u32, c.to_ascii_uppercase() as u32);
                        Sym::T(if l == u { vec![(l, l)] } else { vec![(l, l), (u, u)] })
                    })
                    .collect(),
                s if s.starts_with("%x") => {
                    let h = |x: &str| u32::from_str_radix(x, 16).unwrap();
                    if let Some((a, b)) = s[2..].split_once('-') {
                        vec![Sym::T(vec![(h(a), h(b))])]
                    } else {
                        s[2..].split('.').map(|x| Sym::T(vec![(h(x), h(x))])).collect()
                    }
                }
                name => vec![Sym::N(self.nt(name))],
            };
            if lo == 1 && !star {
                v.extend(elem);
                continue;
            }
            for _ in 0..lo {
                v.extend(elem.iter().cloned());
            }
            if star {
                let n = self.fresh();
                self.rule(n, vec![]);
                let mut rec = vec![Sym::N(n)];
                rec.extend(elem);
                self.rule(n, rec);
                v.push(Sym::N(n));
            }
        }
        v
    }
}

struct Toks(Vec<String>, usize);

impl Toks {
    fn lex(s: &str) -> Toks {
        let cs: Vec<char> = s.chars().collect();
        let mut v = vec![];
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            let st = i;
            if c.is_whitespace() {
                i += 1;
                continue;
            } else if c == '"' {
                i += 1;
                while cs[i] != '"' {
                    i += 1;
                }
                i += 1;
            } else if "/()[]*".contains(c) {
                i += 1;
            } else if c.is_ascii_digit() {
                while i < cs.len() && cs[i].is_ascii_digit() {
                    i += 1;
                }
            } else {
                while i < cs.len() && !cs[i].is_whitespace() && !"/()[]*\"".contains(cs[i]) {
                    i += 1;
                }
            }
            v.push(cs[st..i].iter().collect());
        }
        Toks(v, 0)
    }
    fn peek(&self) -> Option<&String> {
        self.0.get(self.1)
    }
    fn next(&mut self) -> String {
        self.1 += 1;
        self.0[self.1 - 1].clone()
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek().is_some_and(|t| t == s) {
            self.1 += 1;
            return true;
        }
        false
    }
}

impl Grammar {
    pub fn from_abnf(text: &str, start: &str) -> Grammar {
        let mut b = Builder { names: HashMap::new(), prods: vec![], rules: vec![] };
        for line in text.lines().filter(|l| !l.trim().is_empty()) {
            let (lhs, rhs) = line.split_once('=').unwrap();
            let n = b.nt(lhs.trim());
            let mut t = Toks::lex(rhs);
            let alts = b.alternation(&mut t);
            assert!(t.peek().is_none(), "{line}");
            for a in alts {
                b.rule(n, a);
            }
        }
        for (name, &n) in &b.names {
            assert!(!b.prods[n].is_empty(), "undefined rule {name}");
        }
        let mut nullable = vec![false; b.prods.len()];
        loop {
            let mut changed = false;
            for (l, r) in &b.rules {
                if !nullable[*l] && r.iter().all(|s| matches!(s, Sym::N(n) if nullable[*n])) {
                    nullable[*l] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let start = b.names[start];
        Grammar { prods: b.prods, rules: b.rules, nullable, start }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
struct Item {
    rule: u16,
    dot: u8,
    origin: u16,
}

#[derive(Clone)]
struct Set {
    items: Vec<Item>,
}

/// A recogniser state: the Earley sets of the string read so far. Strings can be extended and
/// cut back, as a depth-first exploration does.
#[derive(Clone)]
pub struct Recogniser {
    sets: Vec<Set>,
}

impl Default for Recogniser {
    fn default() -> Self {
        Self::new()
    }
}

impl Recogniser {
    pub fn new() -> Self {
        let g = &*GRAMMAR;
        let mut set = Set { items: vec![] };
        for &r in &g.prods[g.start] {
            set.items.push(Item { rule: r as u16, dot: 0, origin: 0 });
        }
        let mut me = Recogniser { sets: vec![] };
        me.close(&mut set, 0);
        me.sets.push(set);
        me
    }

    pub fn len(&self) -> usize {
        self.sets.len() - 1
    }

    pub fn truncate(&mut self, n: usize) {
        self.sets.truncate(n + 1);
    }

    /// is the string read so far a sentence?
    pub fn accepted(&self) -> bool {
        let g = &*GRAMMAR;
        self.sets.last().unwrap().items.iter().any(|it| {
            let (l, r) = &g.rules[it.rule as usize];
            *l == g.start && it.origin == 0 && it.dot as usize == r.len()
        })
    }

    fn close(&self, set: &mut Set, pos: usize) {
        let g = &*GRAMMAR;
        let mut i = 0;
        let mut seen: std::collections::HashSet<(u16, u8, u16)> =
            set.items.iter().map(|i| (i.rule, i.dot, i.origin)).collect();
        let mut predicted = vec![false; g.prods.len()];
        while i < set.items.len() {
            let it = set.items[i];
            i += 1;
            let (lhs, rhs) = &g.rules[it.rule as usize];
            let mut add = |set: &mut Set, n: Item| {
                if seen.insert((n.rule, n.dot, n.origin)) {
                    set.items.push(n);
                }
            };
            match rhs.get(it.dot as usize) {
                None => {
                    // complete
                    if it.origin as usize == pos {
                        // an empty completion: handled by nullable prediction
                        continue;
                    }
                    for k in 0..self.sets[it.origin as usize].items.len() {
                        let p = self.sets[it.origin as usize].items[k];
                        if let Some(Sym::N(n)) = g.rules[p.rule as usize].1.get(p.dot as usize) {
                            if n == lhs {
                                add(set, Item { dot: p.dot + 1, ..p });
                            }
                        }
                    }
                }
                Some(Sym::N(n)) => {
                    if !predicted[*n] {
                        predicted[*n] = true;
                        for &r in &g.prods[*n] {
                            add(set, Item { rule: r as u16, dot: 0, origin: pos as u16 });
                        }
                    }
                    if g.nullable[*n] {
                        add(set, Item { dot: it.dot + 1, ..it });
                    }
                }
                Some(Sym::T(_)) => {}
            }
        }
    }

    /// read one more character; false (and unchanged) if no sentence starts like this
    pub fn push(&mut self, c: char) -> bool {
        let g = &*GRAMMAR;
        let c = c as u32;
        let mut set = Set { items: vec![] };
        for it in &self.sets.last().unwrap().items {
            if let Some(Sym::T(rs)) = g.rules[it.rule as usize].1.get(it.dot as usize) {
                if rs.iter().any(|(a, b)| (*a..=*b).contains(&c)) {
                    set.items.push(Item { dot: it.dot + 1, ..*it });
                }
            }
        }
        if set.items.is_empty() {
            return false;
        }
        let pos = self.sets.len();
        self.close(&mut set, pos);
        self.sets.push(set);
        true
    }

    /// read a string; false (and unchanged) if no sentence starts like this
    pub fn push_str(&mut self, s: &str) -> bool {
        let n = self.len();
        for c in s.chars() {
            if !self.push(c) {
                self.truncate(n);
                return false;
            }
        }
        true
    }

    pub fn sentence(s: &str) -> bool {
        let mut r = Recogniser::new();
        r.push_str(s) && r.accepted()
    }
}
