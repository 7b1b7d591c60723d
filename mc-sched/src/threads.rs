//! C21: every interleaving of a few threads, within a bound on preemptions.

use crate::pool::{describe, in_child, left_out, out_of_time, parallel, Shared};
use crate::sched::{self, Entry, Log, EXIT_DIVERGED, EXIT_PLAN, MAX_THREADS, SEGS};
use schedops::{run as perform, Env, Op, Out};
use serde_json::{json, Value};
use serde_json_path::JsonPath;
use std::collections::BTreeMap;

type Plan = Vec<(u64, usize, usize)>;

const TEXT: usize = 1 << 14;
const LOG: usize = 1 << 20;
const LIMIT: u64 = 3_000_000;

#[repr(C)]
struct Page {
    done: u64,
    steps: u64,
    steps_of: [u64; MAX_THREADS],
    blocks: u64,
    yields: u64,
    log_n: u64,
    seg_n: u64,
    segs: [(u64, usize); SEGS],
    len: [u64; MAX_THREADS],
    text: [[u8; TEXT]; MAX_THREADS],
}

pub fn env() -> Env {
    let docs = vec![
        json!({"a": [1, {"a": 1, "b": "ab"}, [1, 2, 3]], "b": {"a": {"a": 1}, "b": [true, null, "b"]}, "c": "abc"}),
        json!([[1, 2], {"a": [1, 2], "b": "a"}, "ab", {"a": 1, "b": "b"}, 2, "a", []]),
        // two that make the same conditions true and false, each several times in a row
        json!([{"a": "ab", "b": 1}, {"a": "ab", "b": 1}, {"a": "ab", "b": 1}]),
        json!([{"a": "b", "b": [1, 2]}, {"a": "b", "b": [1, 2]}]),
        // the same with what is longer
        json!([{"a": LONG_A, "b": [1, 2], "c": SOME_A}, {"a": LONG_A, "b": [1, 2], "c": SOME_A}, {"a": LONG_A, "b": [1, 2], "c": SOME_A}]),
        json!([{"a": LONG_B, "b": vec![1; 70], "c": SOME_B}, {"a": LONG_B, "b": vec![1; 70], "c": SOME_B}, {"a": LONG_B, "b": vec![1; 70], "c": SOME_B}]),
    ];
    Env { docs, queries: vec![] }
}

/// longer than anything that might be kept where it is, of different lengths, and of the same
const LONG_A: &str = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz";
const LONG_B: &str = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghij\u{e9}";
const SOME_A: &str = "abcdefghijklmnopqrstuvwx";
const SOME_B: &str = "abcdefghijklmnopqrstuv\u{e9}";

pub const SHARED: &[&str] = &["$..a", "$[?length(@.a)==2]", "$[?match(@.b,'a|b')]", "$..[?search(@,'b')]", "$[?count(@.*)>1]", "$..[?value(@..b)=='b']", "$[?same(@.a)==1]", "$[?both(@.a,@.b)]", "$[?first_of(@.*)==1]"];

/// where in the documents a value is
fn place(e: &Env, v: &Value) -> String {
    fn find(d: &Value, v: &Value, path: &mut String) -> bool {
        if std::ptr::eq(d, v) {
            return true;
        }
        let n = path.len();
        let mut go = |k: String, c: &Value| {
            path.push_str(&k);
            let f = find(c, v, path);
            if !f {
                path.truncate(n);
            }
            f
        };
        match d {
            Value::Array(a) => a.iter().enumerate().any(|(i, c)| go(format!("/{i}"), c)),
            Value::Object(o) => o.iter().any(|(k, c)| go(format!("/{k}"), c)),
            _ => false,
        }
    }
    for (i, d) in e.docs.iter().enumerate() {
        let mut p = i.to_string();
        if find(d, v, &mut p) {
            return p;
        }
    }
    "elsewhere".into()
}

pub fn digest(e: &Env, o: &Out) -> String {
    fn query(q: &JsonPath) -> String {
        format!("{q} {q:?}")
    }
    match o {
        Out::Query(Ok(q)) => query(q),
        Out::Query(Err(e)) => format!("error {e}"),
        Out::Nodes(Ok(v)) => v.iter().map(|v| format!("{} {v}, ", place(e, v))).collect(),
        Out::Nodes(Err(e)) => format!("error {e}"),
        Out::Located(Ok(v)) => v.iter().map(|n| format!("{} {} {}, ", n.location(), place(e, n.node()), n.node())).collect(),
        Out::Located(Err(e)) => format!("error {e}"),
        Out::Text(t) => t.clone(),
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub warm: Vec<usize>,
    /// the operations of each thread
    pub threads: Vec<Vec<usize>>,
}

pub const OPS: &[Op] = &[
    Op::Parse("$.a['b'][0]"),
    Op::Parse("$[?length(@.a)==1]"),
    Op::Parse("$[?count(@.*)>1&&match(@.b,'a')]"),
    Op::Parse("$[?search(@,'a')||value(@.*)==1]"),
    Op::Parse("$[?same(@.a)==1,?both(@.a,@.b)]"),
    Op::Parse("$[?nope(@)]"),
    Op::Parse("$[?length(@.*)==1]"),
    Op::Parse("$.a["),
    Op::FromStr("$..[?@.a>=1.5e1||@['b']!='\\u00e9']"),
    Op::Deserialize("$[1:2,'a',*]"),
    Op::Eval("$[?length(@.a)==2]", 1),
    Op::Eval("$..[?match(@.b,'a|b')]", 0),
    Op::Eval("$..[?search(@,'b')]", 1),
    Op::Eval("$[?count(@.*)>1]", 0),
    Op::Eval("$..[?value(@.b)=='ab']", 0),
    Op::Located("$..[?same(@.a)==1]", 0),
    Op::Eval("$[?both(@.a,@.b)]", 1),
    Op::Ext("$[?first_of(@.*)==1]", 1),
    Op::Located("$..[*]", 1),
    Op::Shared(0, 0),
    Op::Shared(1, 1),
    Op::Shared(2, 1),
    Op::Shared(3, 0),
    Op::SharedLocated(4, 0),
    Op::Shared(5, 0),
    Op::SharedLocated(6, 1),
    Op::Shared(7, 1),
    Op::Shared(8, 1),
    Op::Display(2),
    Op::Eval("$[?match(@.a,'a.')]", 2),
    Op::Eval("$[?match(@.a,'a.')]", 3),
    Op::Eval("$[?search(@.a,'a')]", 2),
    Op::Eval("$[?search(@.a,'a')]", 3),
    Op::Eval("$[?length(@.a)==2,?count(@..*)==2,?value(@.b)==1,?@.a=='ab']", 2),
    Op::Eval("$[?length(@.a)==2,?count(@..*)==2,?value(@.b)==1,?@.a=='ab']", 3),
    Op::Located("$..[?same(@.b)==1,0,-1,'a',::2]", 2),
    Op::Located("$..[?same(@.b)==1,0,-1,'a',::2]", 3),
    // with what is longer
    Op::Eval("$[?length(@.a)==78]", 4),
    Op::Eval("$[?length(@.a)==78]", 5),
    Op::Eval("$[?length(@.c)==24,?length(@.b)==70]", 4),
    Op::Eval("$[?length(@.c)==24,?length(@.b)==70]", 5),
    Op::Eval("$[?match(@.a,'abcdefghijklmnopqrstuvwxyz.*z')]", 4),
    Op::Eval("$[?search(@.a,'abcdefghijklmnopqrstuvwxyzabcdefghij.$')]", 5),
    Op::Located("$[?@.c=='abcdefghijklmnopqrstuvwx',?count(@.b.*)==70]", 4),
    Op::Located("$[?@.c=='abcdefghijklmnopqrstuvwx',?count(@.b.*)==70]", 5),
    Op::Parse("$.abcdefghijklmnopqrstuvwxyz['abcdefghijklmnopqrstuvwxy']"),
    Op::Parse("$['abcdefghijklmnopqrstuvwxy'].abcdefghijklmnopqrstuvwx"),
];

/// those before are combined with each other, those from here on with what is like them
const ALIKE: usize = 29;
/// and from here on
const LONGER: usize = 37;

struct Slot {
    page: Shared<Page>,
    log: Shared<Entry>,
}

impl Slot {
    fn new() -> Self {
        Slot { page: Shared::new(1), log: Shared::new(LOG) }
    }
    fn page(&self) -> &mut Page {
        &mut self.page.all()[0]
    }
    fn text(&self, i: usize) -> String {
        let p = self.page();
        String::from_utf8_lossy(&p.text[i][..p.len[i] as usize]).into_owned()
    }
    fn put(&self, i: usize, s: &str) {
        let p = self.page();
        let n = s.len().min(TEXT);
        p.text[i][..n].copy_from_slice(&s.as_bytes()[..n]);
        p.len[i] = n as u64;
    }
}

fn prepare(c: &Config) -> Env {
    let mut e = env();
    for op in c.threads.iter().flatten() {
        if let Op::Shared(q, _) | Op::SharedLocated(q, _) | Op::Display(q) = OPS[*op] {
            while e.queries.len() <= q {
                // shared queries that are not used are not parsed either
                e.queries.push(JsonPath::default());
            }
            e.queries[q] = JsonPath::parse(SHARED[q]).unwrap();
        }
    }
    for &w in &c.warm {
        let _ = digest(&e, &perform(&e, OPS[w]));
    }
    e
}

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn guarded(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panics: {m}")
    })
}

/// what thread i gives when it runs alone
fn alone(slot: &Slot, e: &Env, c: &Config, i: usize) -> Result<String, String> {
    slot.page().done = 0;
    let st = in_child(|| {
        quiet();
        let t = guarded(|| c.threads[i].iter().map(|&o| digest(e, &perform(e, OPS[o])) + "\n").collect());
        slot.put(0, &t);
        slot.page().done = 1;
    });
    if st != 0 {
        return Err(format!("running alone, thread {i}: {}", describe(st)));
    }
    Ok(slot.text(0))
}

/// one execution under the scheduler
fn execute(slot: &Slot, e: &Env, c: &Config, order: &[usize], plan: &[(u64, usize, usize)], log: bool) -> i32 {
    slot.page().done = 0;
    in_child(|| {
        quiet();
        let n = c.threads.len();
        sched::setup(n, order, plan, LIMIT, log.then(|| Log { at: slot.log.ptr(), len: LOG }));
        let outs: Vec<Vec<Result<Out, String>>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let mine = &c.threads[i];
                    s.spawn(move || {
                        // nothing in here may allocate a result that another thread could see
                        let mut v = Vec::with_capacity(mine.len());
                        sched::enter(i);
                        for &o in mine {
                            let mut r = None;
                            let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r = Some(perform(e, OPS[o]))));
                            v.push(match (t, r) {
                                (Ok(()), Some(r)) => Ok(r),
                                (Err(p), _) => Err(guarded(|| std::panic::resume_unwind(p))),
                                _ => Err("no result".into()),
                            });
                        }
                        sched::leave(i);
                        v
                    })
                })
                .collect();
            sched::start();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, o) in outs.iter().enumerate() {
            slot.put(i, &o.iter().map(|o| match o { Ok(o) => digest(e, o), Err(e) => e.clone() } + "\n").collect::<String>());
        }
        let (p, s) = (slot.page(), sched::state());
        p.steps = s.step;
        p.steps_of = s.steps_of;
        p.blocks = s.blocks;
        p.yields = s.yields;
        p.log_n = s.log_at as u64;
        p.seg_n = s.seg_n as u64;
        p.segs = s.segs;
        p.done = 1;
    })
}

fn judge(slot: &Slot, c: &Config, expected: &[String], st: i32) -> Result<(), String> {
    if st != 0 {
        return Err(describe(st));
    }
    for (i, e) in expected.iter().enumerate() {
        let t = slot.text(i);
        if t != *e {
            return Err(format!("thread {i}, {:?}, gives {t:?}, but alone it gives {e:?}", c.threads[i].iter().map(|&o| OPS[o]).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

fn exited(st: i32, code: i32) -> bool {
    libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == code
}

/// who runs at a step of the execution just recorded
fn runner(p: &Page, step: u64) -> usize {
    p.segs[..p.seg_n as usize].iter().rev().find(|s| s.0 < step).map(|s| s.1).unwrap_or(0)
}

/// the last step of a thread
fn runs_until(p: &Page, t: usize) -> u64 {
    let n = p.seg_n as usize;
    let last = (0..n).rev().find(|&i| p.segs[i].1 == t).unwrap_or(0);
    if last + 1 < n {
        p.segs[last + 1].0
    } else {
        p.steps
    }
}

/// the steps of the execution just recorded at which taking the processor away can matter: right
/// before and after accesses to memory that two threads use
fn flagged(slot: &Slot, after: u64) -> Vec<u64> {
    let log = &slot.log.all()[..slot.page().log_n as usize];
    // (not a hash table: its seeds are taken from the same source as those of the code under test)
    let mut m: BTreeMap<u64, (u8, bool, bool)> = BTreeMap::new();
    for e in log {
        let x = m.entry(e.addr >> 3).or_default();
        x.0 |= 1 << e.thread;
        x.1 |= e.write != 0;
        x.2 |= e.stat != 0;
    }
    let mut v: Vec<u64> = log
        .iter()
        .filter(|e| {
            let x = m[&(e.addr >> 3)];
            x.0.count_ones() > 1 && (x.1 || x.2)
        })
        .flat_map(|e| [e.step as u64, e.step as u64 + 1])
        .filter(|s| *s > after)
        .collect();
    v.sort();
    v.dedup();
    v
}

/// how many preemptions: anywhere, and in all where they can matter
#[derive(Clone, Copy)]
pub struct Bound {
    full: usize,
    flagged: usize,
}

/// every thread is interrupted after the same number of its steps, by the next one
const NESTED: Bound = Bound { full: usize::MAX, flagged: 1 };
const NESTED_ANYWHERE: Bound = Bound { full: usize::MAX, flagged: 0 };

struct Explored {
    runs: u64,
    steps: u64,
    points: u64,
    blocked: u64,
    impossible: u64,
    diverged: u64,
    capped: bool,
    by_bound: [u64; 4],
    outcomes: std::collections::BTreeSet<String>,
    fail: Option<(String, Vec<usize>, Plan)>,
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    match n {
        1 => vec![vec![0]],
        2 => vec![vec![0, 1], vec![1, 0]],
        3 => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
        _ => vec![(0..n).collect()],
    }
}

impl Explored {
    fn nested(&mut self, slot: &Slot, e: &Env, c: &Config, expected: &[String], order: &[usize], anywhere: bool) {
        let n = c.threads.len() as u64;
        let st = execute(slot, e, c, order, &[], true);
        if let Err(m) = judge(slot, c, expected, st) {
            self.fail = Some((m, order.to_vec(), vec![]));
            return;
        }
        let p = slot.page();
        let ks: Vec<u64> = if anywhere {
            (1..=p.steps_of.into_iter().max().unwrap()).collect()
        } else {
            // counted from where each of them begins
            let mut ks: Vec<u64> = flagged(slot, 0).iter().filter_map(|s| p.segs[..p.seg_n as usize].iter().rev().find(|g| g.0 < *s).map(|g| s - g.0)).collect();
            ks.sort();
            ks.dedup();
            ks
        };
        for (i, &k) in ks.iter().enumerate() {
            if i % 64 == 0 && out_of_time() {
                self.capped = true;
                return;
            }
            let plan: Plan = (1..n).map(|i| (i * k, i as usize - 1, i as usize)).collect();
            let st = execute(slot, e, c, order, &plan, false);
            self.runs += 1;
            if exited(st, EXIT_PLAN) || exited(st, EXIT_DIVERGED) {
                // one of them has to wait for another there, or ends before
                self.impossible += 1;
                continue;
            }
            self.by_bound[3] += 1;
            if let Err(m) = judge(slot, c, expected, st) {
                self.fail = Some((m, order.to_vec(), plan));
                return;
            }
            let p = slot.page();
            self.steps += p.steps;
            self.blocked += p.blocks;
            self.points += n - 1;
            self.outcomes.insert((0..expected.len()).map(|i| slot.text(i)).collect());
        }
    }

    fn go(&mut self, slot: &Slot, e: &Env, c: &Config, expected: &[String], order: &[usize], plan: &mut Plan, b: Bound) {
        if self.fail.is_some() || self.capped {
            return;
        }
        if self.runs % 64 == 0 && out_of_time() {
            self.capped = true;
            return;
        }
        let st = execute(slot, e, c, order, plan, plan.len() < b.flagged.max(1));
        self.runs += 1;
        if exited(st, EXIT_PLAN) {
            self.impossible += 1;
            return;
        }
        if exited(st, EXIT_DIVERGED) {
            // something outside the schedule decides what happens
            self.diverged += 1;
            return;
        }
        self.by_bound[plan.len()] += 1;
        if let Err(m) = judge(slot, c, expected, st) {
            self.fail = Some((m, order.to_vec(), plan.clone()));
            return;
        }
        let p = slot.page();
        self.steps += p.steps;
        self.blocked += p.blocks;
        self.outcomes.insert((0..expected.len()).map(|i| slot.text(i)).collect());
        if plan.len() >= b.flagged.max(b.full) {
            return;
        }
        let last = plan.last().map(|p| p.0).unwrap_or(0);
        let matter = flagged(slot, last);
        // up to the bound given preemptions may come anywhere, further ones where they can matter
        let points: Vec<u64> = if plan.len() < b.full { (last + 1..=p.steps).collect() } else { matter.clone() };
        let who: Vec<usize> = points.iter().map(|s| runner(p, *s)).collect();
        let n = c.threads.len();
        let until: Vec<u64> = (0..n).map(|t| runs_until(p, t)).collect();
        for (s, from) in points.into_iter().zip(who) {
            for to in 0..n {
                // to another one that has not ended
                if to != from && s <= until[to] {
                    self.points += 1;
                    plan.push((s, from, to));
                    let deeper = plan.len() < b.full || matter.binary_search(&s).is_ok();
                    self.go(slot, e, c, expected, order, plan, if deeper { b } else { Bound { full: 0, flagged: 0 } });
                    plan.pop();
                }
            }
        }
    }
}

fn case(c: &Config, order: &[usize], plan: &Plan) -> Value {
    json!({"kind": "threads", "warm": c.warm, "threads": c.threads, "order": order, "plan": plan,
           "operations": c.threads.iter().map(|t| t.iter().map(|&o| format!("{:?}", OPS[o])).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

fn explore(slot: &Slot, c: &Config, bound: Bound) -> Value {
    let e = &prepare(c);
    let mut x = Explored { runs: 0, steps: 0, points: 0, blocked: 0, impossible: 0, diverged: 0, capped: false, by_bound: [0; 4], outcomes: Default::default(), fail: None };
    let mut expected = vec![];
    for i in 0..c.threads.len() {
        match alone(slot, e, c, i) {
            Ok(t) => expected.push(t),
            Err(m) => return json!({"fail": {"msg": m, "case": case(c, &[], &vec![])}}),
        }
    }
    for order in permutations(c.threads.len()) {
        // nothing outside the schedule decides what happens
        let mut seen = None;
        for _ in 0..2 {
            let st = execute(slot, e, c, &order, &[], true);
            let p = slot.page();
            let log: Vec<(u32, u8, u8)> = slot.log.all()[..p.log_n as usize].iter().map(|e| (e.step, e.thread, e.write)).collect();
            let now = (st, if st == 0 { (p.steps, p.steps_of, log) } else { Default::default() });
            if seen.as_ref().is_some_and(|before| *before != now) {
                x.diverged += 1;
            }
            seen = Some(now);
        }
        if bound.full == NESTED.full {
            x.nested(slot, e, c, &expected, &order, bound.flagged == 0);
        } else {
            x.go(slot, e, c, &expected, &order, &mut vec![], bound);
        }
    }
    json!({"runs": x.runs, "steps": x.steps, "points": x.points, "blocked": x.blocked, "impossible": x.impossible, "diverged": x.diverged, "capped": x.capped, "by_bound": x.by_bound,
           "outcomes": x.outcomes.len(), "fail": x.fail.map(|(m, o, p)| json!({"msg": m, "case": case(c, &o, &p)}))})
}

type Item = (&'static str, Config, Bound);

pub fn configs(thorough: bool) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let n = ALIKE;
    let c = |warm: &[usize], threads: &[&[usize]]| Config { warm: warm.to_vec(), threads: threads.iter().map(|t| t.to_vec()).collect() };
    for a in 0..n {
        for b in a..n {
            v.push(("two threads, one operation each, from the first use in the process", c(&[], &[&[a], &[b]]), Bound { full: 0, flagged: if thorough { 3 } else { 2 } }));
        }
    }
    for a in 0..n {
        for b in a..n {
            v.push(("two threads, after both operations were done before", c(&[a, b], &[&[a], &[b]]), Bound { full: 0, flagged: if thorough { 2 } else { 1 } }));
        }
    }
    for a in LONGER..OPS.len() {
        for b in a..OPS.len() {
            v.push(("two threads, the same with longer texts and lists", c(&[], &[&[a], &[b]]), Bound { full: 0, flagged: if thorough { 2 } else { 1 } }));
            v.push(("two threads, the same with longer texts and lists", c(&[a, b], &[&[a], &[b]]), Bound { full: 0, flagged: 1 }));
        }
    }
    for a in ALIKE..LONGER {
        for b in a..LONGER {
            v.push(("two threads, what is true for one is false for the other, again and again", c(&[], &[&[a], &[b]]), Bound { full: 0, flagged: if thorough { 2 } else { 1 } }));
        }
    }
    for a in 0..n {
        for b in (0..n).filter(|b| *b != a) {
            v.push(("two threads, the same operation twice in one", c(&[], &[&[a, a], &[b]]), Bound { full: 0, flagged: if thorough { 2 } else { 1 } }));
        }
    }
    // operations that between them use everything that is set up on first use
    let few: Vec<usize> = if thorough { (0..n).collect() } else { vec![2, 4, 10, 11, 15, 22] };
    for &a in &few {
        for &b in few.iter().filter(|b| **b >= a) {
            v.push(("two threads, interrupted anywhere", c(&[], &[&[a], &[b]]), Bound { full: 1, flagged: 1 }));
        }
    }
    for &a in &few {
        for &b in few.iter().filter(|b| **b > a) {
            v.push(("two threads, two operations each, in opposite order", c(&[], &[&[a, b], &[b, a]]), Bound { full: 0, flagged: if thorough { 2 } else { 1 } }));
        }
    }
    let few = [2, 4, 10, 11, 12, 15, 22];
    for &a in &few {
        for &b in few.iter().filter(|b| **b >= a) {
            for &d in few.iter().filter(|d| **d >= b) {
                v.push(("three threads", c(&[], &[&[a], &[b], &[d]]), Bound { full: 0, flagged: if thorough { 2 } else { 1 } }));
            }
        }
    }
    // not by turns, so that of those any number of threads apart some differ
    let all = |w: bool, a: usize, b: usize| {
        let threads: Vec<&[usize]> = (0..MAX_THREADS).map(|i| if i.count_ones() % 2 == 0 { std::slice::from_ref(&a) } else { std::slice::from_ref(&b) }).collect();
        let both = [a, b];
        c(if w { &both } else { &[] }, &threads)
    };
    let few: Vec<usize> = if thorough { (0..OPS.len()).collect() } else { vec![2, 4, 10, 11, 15, 22, 29, 30, 37, 41] };
    for &a in &few {
        for b in [a, (a + 1) % OPS.len()] {
            v.push(("eight threads", all(true, a, b), Bound { full: 0, flagged: 1 }));
            v.push(("eight threads", all(false, a, b), Bound { full: 0, flagged: 1 }));
        }
    }
    for a in 0..OPS.len() {
        for b in [a, (a + 1) % OPS.len()] {
            v.push(("eight threads, in the midst of it at once", all(true, a, b), NESTED));
            v.push(("eight threads, in the midst of it at once", all(false, a, b), NESTED));
        }
    }
    for &a in few.iter().take(10) {
        if thorough {
            v.push(("eight threads, at once anywhere in the midst of it", all(true, a, a), NESTED_ANYWHERE));
        }
    }
    v
}

pub fn run(thorough: bool) -> Value {
    let cs = configs(thorough);
    let rs = parallel(cs.len(), |i| explore(&Slot::new(), &cs[i].1, cs[i].2));
    let mut phases: Vec<Value> = vec![];
    let mut fails = vec![];
    for ((name, c, bound), r) in cs.iter().zip(&rs) {
        if !r["fail"].is_null() {
            fails.push(r["fail"].clone());
        }
        if phases.iter().all(|p| p["phase"] != *name) {
            phases.push(json!({"phase": name, "bound": if bound.full == NESTED.full { "8 threads, each interrupted by the next after the same number of its steps".into() } else { format!("{} threads, up to {} preemptions anywhere, up to {} where they can matter", c.threads.len(), bound.full, bound.flagged) }, "configurations": 0, "executions": 0u64, "steps": 0u64, "preemption_points": 0u64, "blocked": 0u64, "impossible": 0u64, "diverged": 0u64, "by_preemptions": [0, 0, 0, 0]}));
        }
        let p = phases.iter_mut().find(|p| p["phase"] == *name).unwrap();
        let mut add = |k: &str, v: u64| p[k] = json!(p[k].as_u64().unwrap() + v);
        add("configurations", 1);
        for (k, f) in [("executions", "runs"), ("steps", "steps"), ("preemption_points", "points"), ("blocked", "blocked"), ("impossible", "impossible"), ("diverged", "diverged")] {
            add(k, r[f].as_u64().unwrap_or(0));
        }
        for i in 0..4 {
            p["by_preemptions"][i] = json!(p["by_preemptions"][i].as_u64().unwrap() + r["by_bound"][i].as_u64().unwrap_or(0));
        }
    }
    json!({"phases": phases, "failures": fails, "left_out": left_out(&rs), "samples": cs.iter().step_by((cs.len() / 12).max(1)).map(|(_, c, _)| case(c, &[], &vec![])).collect::<Vec<_>>()})
}

pub fn one(v: &Value) -> Result<(), String> {
    let list = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let c = Config { warm: list(&v["warm"]), threads: v["threads"].as_array().unwrap().iter().map(list).collect() };
    let (slot, e) = (Slot::new(), prepare(&c));
    let mut expected = vec![];
    for i in 0..c.threads.len() {
        expected.push(alone(&slot, &e, &c, i)?);
    }
    let order = list(&v["order"]);
    let plan: Plan = v["plan"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap() as usize, x[2].as_u64().unwrap() as usize)).collect();
    if order.is_empty() {
        return Ok(());
    }
    let st = execute(&slot, &e, &c, &order, &plan, false);
    judge(&slot, &c, &expected, st)
}

/// how an execution goes, several times
pub fn repeat(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let list = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let c = Config { warm: list(&v["warm"]), threads: v["threads"].as_array().unwrap().iter().map(list).collect() };
    let (slot, e) = (Slot::new(), prepare(&c));
    for _ in 0..20 {
        let st = execute(&slot, &e, &c, &list(&v["order"]), &[], true);
        let p = slot.page();
        println!("{st} {} {:?} {:?} log {} flagged {}", p.steps, p.steps_of, &p.segs[..p.seg_n as usize], p.log_n, flagged(&slot, 0).len());
    }
}
