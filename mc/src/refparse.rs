//! Reference parser: recursive descent over RFC 9535's grammar, plus the integer range of I-JSON
//! and the well-typedness rules of section 2.4.3. Independent of the code under test; its
//! acceptance is cross-checked against the RFC's ABNF itself (see `earley`).

use crate::ast::*;
use crate::funcs::{signature, Ty};

#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    Grammar,
    Range,
    Type,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// must be accepted, with this structure
    Accept(Query),
    /// may be accepted (with this structure) or rejected
    Open(Query),
    /// must be rejected
    Reject(Why),
}

impl Expect {
    pub fn query(&self) -> Option<&Query> {
        match self {
            Expect::Accept(q) | Expect::Open(q) => Some(q),
            Expect::Reject(_) => None,
        }
    }
}

const MAX_INT: i128 = (1 << 53) - 1;

struct P<'s> {
    s: &'s [char],
    out_of_range: bool,
    /// a comparand has blanks inside its brackets: not in the grammar, but left open here
    open_blank: bool,
    /// a number literal is outside of a double's range: in the grammar, but left open here
    open_num: bool,
}

type R<T> = Option<(T, usize)>;

pub fn parse(s: &str) -> Expect {
    let chars: Vec<char> = s.chars().collect();
    let mut p = P { s: &chars, out_of_range: false, open_blank: false, open_num: false };
    match p.query(0) {
        Some((q, end)) if end == chars.len() && q.abs => {
            if p.out_of_range {
                Expect::Reject(Why::Range)
            } else if !typed_query(&q) {
                Expect::Reject(Why::Type)
            } else if p.open_blank || p.open_num {
                Expect::Open(q)
            } else {
                Expect::Accept(q)
            }
        }
        _ => Expect::Reject(Why::Grammar),
    }
}

/// acceptance by the grammar alone (no ranges, no types, nothing left open)
pub fn grammatical(s: &str) -> bool {
    let chars: Vec<char> = s.chars().collect();
    let mut p = P { s: &chars, out_of_range: false, open_blank: false, open_num: false };
    matches!(p.query(0), Some((q, end)) if end == chars.len() && q.abs)
        && !p.open_blank
}

/// the function call that starts at a byte
pub fn call_at(s: &str, at: usize) -> Option<Call> {
    let chars: Vec<char> = s.chars().collect();
    let mut p = P { s: &chars, out_of_range: false, open_blank: false, open_num: false };
    p.call(s[..at].chars().count()).map(|x| x.0)
}

/// the query that starts at a byte, and the byte at which it ends
pub fn query_at(s: &str, at: usize) -> Option<(Query, usize)> {
    let chars: Vec<char> = s.chars().collect();
    let mut p = P { s: &chars, out_of_range: false, open_blank: false, open_num: false };
    let (q, end) = p.query(s[..at].chars().count())?;
    Some((q, chars[..end].iter().map(|c| c.len_utf8()).sum()))
}

pub fn is_blank(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

fn is_name_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80
}

fn is_fname_char(c: char) -> bool {
    c.is_ascii_lowercase() || c == '_' || c.is_ascii_digit()
}

impl P<'_> {
    fn at(&self, i: usize) -> Option<char> {
        self.s.get(i).copied()
    }

    fn ws(&self, mut i: usize) -> usize {
        while self.at(i).is_some_and(is_blank) {
            i += 1;
        }
        i
    }

    fn lit(&self, i: usize, t: &str) -> Option<usize> {
        let mut j = i;
        for c in t.chars() {
            if self.at(j) != Some(c) {
                return None;
            }
            j += 1;
        }
        Some(j)
    }

    fn query(&mut self, i: usize) -> R<Query> {
        let abs = match self.at(i)? {
            '$' => true,
            '@' => false,
            _ => return None,
        };
        let mut segs = vec![];
        let mut i = i + 1;
        loop {
            let j = self.ws(i);
            match self.segment(j)? {
                Some((s, k)) => {
                    segs.push(s);
                    i = k;
                }
                None => return Some((Query { abs, segs }, i)),
            }
        }
    }

    /// `None`: malformed; `Some(None)`: no segment starts here
    #[allow(clippy::option_option)]
    fn segment(&mut self, i: usize) -> Option<Option<(Seg, usize)>> {
        match self.at(i) {
            Some('[') => {
                let (sels, k) = self.bracketed(i)?;
                Some(Some((Seg { desc: false, sels }, k)))
            }
            Some('.') => {
                let (desc, j) = if self.at(i + 1) == Some('.') { (true, i + 2) } else { (false, i + 1) };
                match self.at(j)? {
                    '*' => Some(Some((Seg { desc, sels: vec![Sel::Wild] }, j + 1))),
                    '[' if desc => {
                        let (sels, k) = self.bracketed(j)?;
                        Some(Some((Seg { desc, sels }, k)))
                    }
                    c if is_name_first(c) => {
                        let mut k = j + 1;
                        while self.at(k).is_some_and(|c| is_name_first(c) || c.is_ascii_digit()) {
                            k += 1;
                        }
                        let n: String = self.s[j..k].iter().collect();
                        Some(Some((Seg { desc, sels: vec![Sel::Name(n)] }, k)))
                    }
                    _ => None,
                }
            }
            _ => Some(None),
        }
    }

    fn bracketed(&mut self, i: usize) -> R<Vec<Sel>> {
        let mut i = self.ws(self.lit(i, "[")?);
        let mut sels = vec![];
        loop {
            let (s, j) = self.selector(i)?;
            sels.push(s);
            let j = self.ws(j);
            match self.at(j)? {
                ']' => return Some((sels, j + 1)),
                ',' => i = self.ws(j + 1),
                _ => return None,
            }
        }
    }

    fn selector(&mut self, i: usize) -> R<Sel> {
        match self.at(i)? {
            '*' => Some((Sel::Wild, i + 1)),
            '\'' | '"' => self.string(i).map(|(s, j)| (Sel::Name(s), j)),
            '?' => {
                let (e, j) = self.or_expr(self.ws(i + 1))?;
                Some((Sel::Filter(e), j))
            }
            _ => {
                // index or slice
                let (a, j) = match self.int(i) {
                    Some((v, j)) => (Some(v), j),
                    None => (None, i),
                };
                let k = if a.is_some() { self.ws(j) } else { j };
                if self.at(k) == Some(':') {
                    let k = k + 1;
                    let (b, k2) = match self.int(self.ws(k)) {
                        Some((v, j)) => (Some(v), j),
                        None => (None, k),
                    };
                    // `[S end]` and `[S ":" ...]` are both optional
                    let k3 = self.ws(k2);
                    if self.at(k3) == Some(':') {
                        let (c, k4) = match self.int(self.ws(k3 + 1)) {
                            Some((v, j)) => (Some(v), j),
                            None => (None, k3 + 1),
                        };
                        return Some((Sel::Slice(a, b, c), k4));
                    }
                    return Some((Sel::Slice(a, b, None), k2));
                }
                Some((Sel::Index(a?), j))
            }
        }
    }

    fn int(&mut self, i: usize) -> R<i64> {
        let neg = self.at(i) == Some('-');
        let j = if neg { i + 1 } else { i };
        let c = self.at(j)?;
        if c == '0' {
            return if neg { None } else { Some((0, j + 1)) };
        }
        if !c.is_ascii_digit() {
            return None;
        }
        let mut k = j;
        let mut v: i128 = 0;
        while let Some(d) = self.at(k).and_then(|c| c.to_digit(10)) {
            v = (v * 10 + d as i128).min(1 << 100);
            k += 1;
        }
        if v > MAX_INT {
            self.out_of_range = true;
            v = 0;
        }
        Some((if neg { -v } else { v } as i64, k))
    }

    fn hex4(&self, i: usize) -> Option<u32> {
        let mut v = 0;
        for k in 0..4 {
            v = v * 16 + self.at(i + k)?.to_digit(16)?;
        }
        Some(v)
    }

    fn string(&self, i: usize) -> R<String> {
        let q = self.at(i)?;
        if q != '\'' && q != '"' {
            return None;
        }
        let mut out = String::new();
        let mut i = i + 1;
        loop {
            let c = self.at(i)?;
            if c == q {
                return Some((out, i + 1));
            }
            if (c as u32) < 0x20 {
                return None;
            }
            if c != '\\' {
                out.push(c);
                i += 1;
                continue;
            }
            let e = self.at(i + 1)?;
            i += 2;
            match e {
                'b' => out.push('\u{8}'),
                'f' => out.push('\u{c}'),
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '/' => out.push('/'),
                '\\' => out.push('\\'),
                'u' => {
                    let h = self.hex4(i)?;
                    i += 4;
                    if (0xd800..0xdc00).contains(&h) {
                        if self.at(i)? != '\\' || self.at(i + 1)? != 'u' {
                            return None;
                        }
                        let l = self.hex4(i + 2)?;
                        if !(0xdc00..0xe000).contains(&l) {
                            return None;
                        }
                        i += 6;
                        out.push(char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00))?);
                    } else {
                        out.push(char::from_u32(h)?);
                    }
                }
                e if e == q => out.push(e),
                _ => return None,
            }
        }
    }

    fn number(&mut self, i: usize) -> R<String> {
        let mut j = i;
        if self.at(j) == Some('-') {
            j += 1;
        }
        match self.at(j)? {
            '0' => j += 1,
            c if c.is_ascii_digit() => {
                while self.at(j).is_some_and(|c| c.is_ascii_digit()) {
                    j += 1;
                }
            }
            _ => return None,
        }
        if self.at(j) == Some('.') {
            let mut k = j + 1;
            while self.at(k).is_some_and(|c| c.is_ascii_digit()) {
                k += 1;
            }
            if k > j + 1 {
                j = k;
            }
        }
        if matches!(self.at(j), Some('e' | 'E')) {
            let mut k = j + 1;
            if matches!(self.at(k), Some('+' | '-')) {
                k += 1;
            }
            let k0 = k;
            while self.at(k).is_some_and(|c| c.is_ascii_digit()) {
                k += 1;
            }
            if k > k0 {
                j = k;
            }
        }
        let t: String = self.s[i..j].iter().collect();
        let f: f64 = t.parse().unwrap();
        let nonzero = t.split(['e', 'E']).next().unwrap().chars().any(|c| ('1'..='9').contains(&c));
        if !f.is_finite() || (nonzero && f.abs() < f64::MIN_POSITIVE) {
            self.open_num = true;
        }
        Some((t, j))
    }

    fn literal(&mut self, i: usize) -> R<Lit> {
        match self.at(i)? {
            '\'' | '"' => return self.string(i).map(|(s, j)| (Lit::Str(s), j)),
            '-' | '0'..='9' => return self.number(i).map(|(n, j)| (Lit::Num(n), j)),
            _ => {}
        }
        for (t, l) in [("null", Lit::Null), ("true", Lit::Bool(true)), ("false", Lit::Bool(false))] {
            if let Some(j) = self.lit(i, t) {
                if self.at(j).is_some_and(|c| is_fname_char(c) || c == '(') {
                    return None;
                }
                return Some((l, j));
            }
        }
        None
    }

    fn or_expr(&mut self, i: usize) -> R<Expr> {
        let (e, mut i) = self.and_expr(i)?;
        let mut es = vec![e];
        while let Some(j) = self.lit(self.ws(i), "||") {
            let (e, k) = self.and_expr(self.ws(j))?;
            es.push(e);
            i = k;
        }
        Some((if es.len() == 1 { es.pop().unwrap() } else { Expr::Or(es) }, i))
    }

    fn and_expr(&mut self, i: usize) -> R<Expr> {
        let (e, mut i) = self.basic(i)?;
        let mut es = vec![e];
        while let Some(j) = self.lit(self.ws(i), "&&") {
            let (e, k) = self.basic(self.ws(j))?;
            es.push(e);
            i = k;
        }
        Some((if es.len() == 1 { es.pop().unwrap() } else { Expr::And(es) }, i))
    }

    fn paren(&mut self, i: usize) -> R<Expr> {
        let (e, j) = self.or_expr(self.ws(self.lit(i, "(")?))?;
        Some((e, self.lit(self.ws(j), ")")?))
    }

    fn basic(&mut self, i: usize) -> R<Expr> {
        match self.at(i)? {
            '(' => self.paren(i),
            '!' => {
                let j = self.ws(i + 1);
                let (e, k) = match self.at(j)? {
                    '(' => self.paren(j)?,
                    '$' | '@' => {
                        let (q, k) = self.query(j)?;
                        (Expr::Exist(q), k)
                    }
                    _ => {
                        let (c, k) = self.call(j)?;
                        (Expr::Func(c), k)
                    }
                };
                // a negated test can not be compared; the operator is then left over
                Some((Expr::Not(Box::new(e)), k))
            }
            '$' | '@' => {
                let (q, j) = self.query(i)?;
                match self.cmp_rest(j)? {
                    None => Some((Expr::Exist(q), j)),
                    Some((op, r, k)) => {
                        self.singular_or_fail(&q, i, j)?;
                        Some((Expr::Cmp(Operand::Query(q), op, r), k))
                    }
                }
            }
            _ => {
                if let Some((l, j)) = self.literal(i) {
                    let (op, r, k) = self.cmp_rest(j)??;
                    return Some((Expr::Cmp(Operand::Lit(l), op, r), k));
                }
                let (c, j) = self.call(i)?;
                match self.cmp_rest(j)? {
                    None => Some((Expr::Func(c), j)),
                    Some((op, r, k)) => Some((Expr::Cmp(Operand::Func(c), op, r), k)),
                }
            }
        }
    }

    /// a comparand query must be singular, and its brackets must have no blanks inside
    fn singular_or_fail(&mut self, q: &Query, from: usize, to: usize) -> Option<()> {
        if !q.is_singular() {
            return None;
        }
        let mut i = from;
        while i < to {
            let c = self.s[i];
            if c == '[' && self.at(i + 1).is_some_and(is_blank) {
                self.open_blank = true;
            }
            if c == ']' && is_blank(self.s[i - 1]) {
                self.open_blank = true;
            }
            if c == '\'' || c == '"' {
                i = self.string(i)?.1;
            } else {
                i += 1;
            }
        }
        Some(())
    }

    /// `None`: malformed; `Some(None)`: no comparison operator follows
    #[allow(clippy::option_option)]
    fn cmp_rest(&mut self, i: usize) -> Option<Option<(Op, Operand, usize)>> {
        let j = self.ws(i);
        let mut found = None;
        for (t, op) in [
            ("==", Op::Eq),
            ("!=", Op::Ne),
            ("<=", Op::Le),
            (">=", Op::Ge),
            ("<", Op::Lt),
            (">", Op::Gt),
        ] {
            if let Some(k) = self.lit(j, t) {
                found = Some((op, k));
                break;
            }
        }
        let Some((op, k)) = found else { return Some(None) };
        let k = self.ws(k);
        let (r, end) = match self.at(k)? {
            '$' | '@' => {
                let (q, e) = self.query(k)?;
                self.singular_or_fail(&q, k, e)?;
                (Operand::Query(q), e)
            }
            _ => match self.literal(k) {
                Some((l, e)) => (Operand::Lit(l), e),
                None => {
                    let (c, e) = self.call(k)?;
                    (Operand::Func(c), e)
                }
            },
        };
        Some(Some((op, r, end)))
    }

    fn call(&mut self, i: usize) -> R<Call> {
        if !self.at(i)?.is_ascii_lowercase() {
            return None;
        }
        let mut j = i;
        while self.at(j).is_some_and(is_fname_char) {
            j += 1;
        }
        let name: String = self.s[i..j].iter().collect();
        let mut k = self.ws(self.lit(j, "(")?);
        let mut args = vec![];
        if self.at(k) == Some(')') {
            return Some((Call { name, args }, k + 1));
        }
        loop {
            let (a, e) = self.argument(k)?;
            args.push(a);
            let e = self.ws(e);
            match self.at(e)? {
                ')' => return Some((Call { name, args }, e + 1)),
                ',' => k = self.ws(e + 1),
                _ => return None,
            }
        }
    }

    fn ends_arg(&self, i: usize) -> bool {
        matches!(self.at(self.ws(i)), Some(',' | ')'))
    }

    fn argument(&mut self, i: usize) -> R<Arg> {
        let saved = (self.out_of_range, self.open_blank, self.open_num);
        if let Some((l, j)) = self.literal(i) {
            if self.ends_arg(j) {
                return Some((Arg::Lit(l), j));
            }
        } else if matches!(self.at(i)?, '$' | '@') {
            let (q, j) = self.query(i)?;
            if self.ends_arg(j) {
                return Some((Arg::Query(q), j));
            }
        } else if self.at(i)?.is_ascii_lowercase() {
            let (c, j) = self.call(i)?;
            if self.ends_arg(j) {
                return Some((Arg::Func(c), j));
            }
        }
        (self.out_of_range, self.open_blank, self.open_num) = saved;
        let (e, j) = self.or_expr(i)?;
        Some((Arg::Logical(e), j))
    }
}

// ---- well-typedness, RFC 9535 section 2.4.3 ----

pub fn typed_query(q: &Query) -> bool {
    q.segs.iter().all(|s| {
        s.sels.iter().all(|s| match s {
            Sel::Filter(e) => typed_expr(e),
            _ => true,
        })
    })
}

fn typed_expr(e: &Expr) -> bool {
    match e {
        Expr::Or(es) | Expr::And(es) => es.iter().all(typed_expr),
        Expr::Not(e) => typed_expr(e),
        Expr::Exist(q) => typed_query(q),
        Expr::Func(c) => matches!(call_type(c), Some(Ty::L | Ty::N)),
        Expr::Cmp(a, _, b) => typed_operand(a) && typed_operand(b),
    }
}

fn typed_operand(o: &Operand) -> bool {
    match o {
        Operand::Lit(_) => true,
        Operand::Query(q) => q.is_singular(),
        Operand::Func(c) => call_type(c) == Some(Ty::V),
    }
}

/// the result type of a call, if the call is well-typed
pub fn call_type(c: &Call) -> Option<Ty> {
    let (params, ret) = signature(&c.name)?;
    if params.len() != c.args.len() {
        return None;
    }
    for (p, a) in params.iter().zip(&c.args) {
        let ok = match (p, a) {
            (Ty::V, Arg::Lit(_)) => true,
            (Ty::V, Arg::Query(q)) => q.is_singular(),
            (Ty::V, Arg::Func(f)) => call_type(f) == Some(Ty::V),
            (Ty::V, Arg::Logical(_)) => false,
            (Ty::N, Arg::Query(q)) => typed_query(q),
            (Ty::N, Arg::Func(f)) => call_type(f) == Some(Ty::N),
            (Ty::N, _) => false,
            (Ty::L, Arg::Query(q)) => typed_query(q),
            (Ty::L, Arg::Func(f)) => matches!(call_type(f), Some(Ty::L | Ty::N)),
            (Ty::L, Arg::Logical(e)) => typed_expr(e),
            (Ty::L, Arg::Lit(_)) => false,
        };
        if !ok {
            return None;
        }
    }
    Some(ret)
}
