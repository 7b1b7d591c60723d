//! Reference matcher for I-Regexp (RFC 9485), by sets of reachable end positions.

#[derive(Clone, Debug)]
pub enum Re {
    Alt(Vec<Re>),
    Cat(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Dot,
    Char(char),
    /// `^` and `$` where they are not escaped: the ends of the whole text, as in the Compliance
    /// Test Suite
    Start,
    End,
    /// negated, ranges, and categories (negated, name)
    Class(bool, Vec<(char, char)>, Vec<(bool, String)>),
}

/// characters of the general categories, for the characters whose category is known here: all of
/// ASCII and a few of every other category
pub const SAMPLES: &[(&str, &str)] = &[
    ("Lu", "ABCDEFGHIJKLMNOPQRSTUVWXYZÉ"),
    ("Ll", "abcdefghijklmnopqrstuvwxyzéëê"),
    ("Lt", "ǅ"),
    ("Lm", "ʰ"),
    ("Lo", "ª中"),
    ("Mn", "\u{301}"),
    ("Mc", "\u{903}"),
    ("Me", "\u{20dd}"),
    ("Nd", "0123456789٣"),
    ("Nl", "Ⅷ"),
    ("No", "½"),
    ("Pc", "_‿"),
    ("Pd", "-–"),
    ("Ps", "([{"),
    ("Pe", ")]}"),
    ("Pi", "«"),
    ("Pf", "»"),
    ("Po", "!\"#%&'*,./:;?@\\¡"),
    ("Sc", "$€"),
    ("Sk", "^`´"),
    ("Sm", "+<=>|~×"),
    ("So", "©😀"),
    ("Zs", " \u{a0}"),
    ("Zl", "\u{2028}"),
    ("Zp", "\u{2029}"),
    ("Cf", "\u{ad}"),
    ("Co", "\u{e000}"),
    ("Cn", "\u{378}"),
];

/// the categories of I-Regexp
pub const CATEGORIES: &[&str] = &[
    "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C", "Cc", "Cf", "Cn", "Co",
];

fn in_category(c: char, cat: &str) -> bool {
    let of = if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) {
        "Cc"
    } else {
        SAMPLES.iter().find(|(_, s)| s.contains(c)).unwrap_or_else(|| panic!("category of {c:?} is not known to the reference matcher")).0
    };
    of.starts_with(cat)
}


pub fn parse(s: &str) -> Option<Re> {
    let cs: Vec<char> = s.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let r = p.alt()?;
    (p.i == cs.len()).then_some(r)
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        Some(c)
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Some(if v.len() == 1 { v.pop()? } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            v.push(self.quantified(a)?);
        }
        Some(Re::Cat(v))
    }
    fn digits(&mut self) -> Option<u32> {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect::<String>().parse().ok()
    }
    fn quantified(&mut self, a: Re) -> Option<Re> {
        let (lo, hi) = match self.peek() {
            Some('*') => (0, None),
            Some('+') => (1, None),
            Some('?') => (0, Some(1)),
            Some('{') => {
                self.i += 1;
                let lo = self.digits()?;
                let mut hi = Some(lo);
                if self.peek() == Some(',') {
                    self.i += 1;
                    hi = if self.peek() == Some('}') { None } else { Some(self.digits()?) };
                }
                if self.peek() != Some('}') || hi.is_some_and(|h| h < lo) {
                    return None;
                }
                (lo, hi)
            }
            _ => return Some(a),
        };
        self.i += 1;
        // a second quantifier is not in the grammar
        if matches!(self.peek(), Some('*' | '+' | '?' | '{')) {
            return None;
        }
        Some(Re::Rep(Box::new(a), lo, hi))
    }
    fn escape(&mut self) -> Option<char> {
        Some(match self.next()? {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            c @ ('('..='+' | '-' | '.' | '?' | '['..='^' | '{'..='}') => c,
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Re> {
        match self.next()? {
            '(' => {
                let r = self.alt()?;
                (self.next()? == ')').then_some(r)
            }
            '.' => Some(Re::Dot),
            '\\' if matches!(self.peek(), Some('p' | 'P')) => self.category().map(|c| Re::Class(false, vec![], vec![c])),
            '\\' => self.escape().map(Re::Char),
            '[' => self.class(),
            ')' | '*' | '+' | '?' | ']' | '{' | '}' | '|' => None,
            '^' => Some(Re::Start),
            '$' => Some(Re::End),
            c => Some(Re::Char(c)),
        }
    }
    fn category(&mut self) -> Option<(bool, String)> {
        let neg = self.next()? == 'P';
        if self.next()? != '{' {
            return None;
        }
        let mut name = String::new();
        loop {
            match self.next()? {
                '}' => break,
                c => name.push(c),
            }
        }
        CATEGORIES.contains(&name.as_str()).then_some((neg, name))
    }
    fn class(&mut self) -> Option<Re> {
        let neg = self.peek() == Some('^');
        if neg {
            self.i += 1;
        }
        let mut rs = vec![];
        let mut cats = vec![];
        if self.peek() == Some('-') {
            self.i += 1;
            rs.push(('-', '-'));
        }
        loop {
            match self.next()? {
                ']' => return (!rs.is_empty() || !cats.is_empty()).then_some(Re::Class(neg, rs, cats)),
                '-' => {
                    rs.push(('-', '-'));
                    if self.next()? != ']' {
                        return None;
                    }
                    return Some(Re::Class(neg, rs, cats));
                }
                '[' => return None,
                '\\' if matches!(self.peek(), Some('p' | 'P')) => cats.push(self.category()?),
                c => {
                    let lo = if c == '\\' { self.escape()? } else { c };
                    let mut hi = lo;
                    if self.peek() == Some('-') && self.s.get(self.i + 1) != Some(&']') {
                        self.i += 1;
                        hi = match self.next()? {
                            '\\' => self.escape()?,
                            '[' | ']' | '-' => return None,
                            c => c,
                        };
                        if hi < lo {
                            return None;
                        }
                    }
                    rs.push((lo, hi));
                }
            }
        }
    }
}

impl Re {
    /// the end positions of matches that start at one of `from` (both as sorted sets)
    fn ends(&self, s: &[char], from: &[usize]) -> Vec<usize> {
        let one = |f: &dyn Fn(char) -> bool| -> Vec<usize> {
            from.iter().filter(|&&i| i < s.len() && f(s[i])).map(|&i| i + 1).collect()
        };
        match self {
            Re::Char(c) => one(&|x| x == *c),
            Re::Start => from.iter().filter(|&&i| i == 0).copied().collect(),
            Re::End => from.iter().filter(|&&i| i == s.len()).copied().collect(),
            Re::Dot => one(&|x| x != '\n' && x != '\r'),
            Re::Class(neg, rs, cats) => {
                one(&|x| (rs.iter().any(|(a, b)| (*a..=*b).contains(&x)) || cats.iter().any(|(n, c)| in_category(x, c) != *n)) != *neg)
            }
            Re::Cat(v) => v.iter().fold(from.to_vec(), |f, r| r.ends(s, &f)),
            Re::Alt(v) => {
                let mut out: Vec<usize> = v.iter().flat_map(|r| r.ends(s, from)).collect();
                out.sort();
                out.dedup();
                out
            }
            Re::Rep(r, lo, hi) => {
                let mut cur = from.to_vec();
                for _ in 0..*lo {
                    cur = r.ends(s, &cur);
                }
                let mut all = cur.clone();
                let mut n = *lo;
                while !cur.is_empty() && hi.map_or(true, |h| n < h) {
                    cur = r.ends(s, &cur);
                    cur.retain(|i| !all.contains(i));
                    all.extend(&cur);
                    n += 1;
                }
                all.sort();
                all
            }
        }
    }
    pub fn full_match(&self, s: &str) -> bool {
        let cs: Vec<char> = s.chars().collect();
        self.ends(&cs, &[0]).contains(&cs.len())
    }
    pub fn search(&self, s: &str) -> bool {
        let cs: Vec<char> = s.chars().collect();
        let all: Vec<usize> = (0..=cs.len()).collect();
        !self.ends(&cs, &all).is_empty()
    }
}
