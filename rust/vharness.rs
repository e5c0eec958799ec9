// Exhaustive exploration of the rule validator (compiled as a child module of validator.rs in a scratch copy).
use super::*;
use crate::config::Config;
use crate::count_expr::{CountExpr, Function, RecursiveExpr, VarSubst, Variable};
use crate::tm::TM;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------------------ reference expressions
#[derive(Clone, Debug, PartialEq)]
enum E {
    S(Vec<(u8, u64)>, u64),
    R(u8, Box<E>, Box<E>, Box<E>), // (λv.f)^reps base
}
const NAMES: &[u8] = b"nabcdefghijklmopqrstuvwxyz";
const CAP: u64 = 100_000;
type Env = [u64; 40];

fn num(k: u64) -> E {
    E::S(vec![], k)
}
fn vs(v: u8, c: u64, k: u64) -> E {
    E::S(vec![(v, c)], k)
}

fn eval(e: &E, env: &Env) -> Option<u64> {
    match e {
        E::S(vs, k) => {
            let mut t = *k;
            for (v, c) in vs {
                t += c * env[*v as usize];
            }
            if t > CAP { None } else { Some(t) }
        }
        E::R(v, f, reps, base) => {
            let n = eval(reps, env)?;
            let mut x = eval(base, env)?;
            if n > 300 {
                return None;
            }
            let mut inner = *env;
            for _ in 0..n {
                inner[*v as usize] = x;
                x = eval(f, &inner)?;
            }
            Some(x)
        }
    }
}

fn vname(v: u8) -> String {
    if (v as usize) < NAMES.len() { (NAMES[v as usize] as char).to_string() } else { format!("<x{}>", v) }
}

fn text(e: &E) -> String {
    match e {
        E::S(vs, k) => {
            let mut t: Vec<String> = vs.iter().filter(|x| x.1 != 0).map(|(v, c)| if *c == 1 { vname(*v) } else { format!("{}{}", c, vname(*v)) }).collect();
            if *k != 0 || t.is_empty() {
                t.push(k.to_string());
            }
            t.join("+")
        }
        E::R(v, f, n, b) => format!("((λ{}.{})^{} {})", vname(*v), text(f), text(n), text(b)),
    }
}

fn var(v: u8) -> Variable {
    Variable::from_str(&vname(v)).unwrap()
}

thread_local! {
    static PARSED: std::cell::RefCell<HashMap<String, CountExpr>> = Default::default();
}
fn conv(e: &E) -> CountExpr {
    match e {
        E::S(..) => {
            // parsing compiles a regular expression: remember what was parsed
            let t = text(e);
            PARSED.with(|m| m.borrow_mut().entry(t).or_insert_with_key(|t| CountExpr::from_str(t).unwrap()).clone())
        }
        E::R(v, f, n, b) => CountExpr::RecursiveExpr(RecursiveExpr {
            func: Box::new(Function { bound_var: var(*v), expr: conv(f) }),
            num_repeats: Box::new(conv(n)),
            base: Box::new(conv(b)),
        }),
    }
}

// Reads what the code displays.
struct P<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> char {
        if self.i < self.s.len() { self.s[self.i] } else { '\0' }
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek() == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<u64> {
        let st = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect::<String>().parse().ok()
    }
    fn variable(&mut self) -> Option<u8> {
        let c = self.peek();
        if c == '<' {
            self.i += 1;
            self.eat('x')?;
            let k = self.number()?;
            self.eat('>')?;
            return if k < 40 { Some(k as u8) } else { None };
        }
        let p = NAMES.iter().position(|x| *x as char == c)?;
        self.i += 1;
        Some(p as u8)
    }
    fn term(&mut self, vs: &mut Vec<(u8, u64)>, k: &mut u64) -> Option<()> {
        if self.peek().is_ascii_digit() {
            let c = self.number()?;
            let n = self.peek();
            if n == '<' || n.is_ascii_lowercase() {
                let v = self.variable()?;
                vs.push((v, c));
            } else {
                *k += c;
            }
        } else {
            let v = self.variable()?;
            vs.push((v, 1));
        }
        Some(())
    }
    fn expr(&mut self) -> Option<E> {
        if self.peek() == '(' {
            self.i += 1;
            let r = self.rec()?;
            self.eat(')')?;
            return Some(r);
        }
        let (mut vs, mut k) = (vec![], 0);
        self.term(&mut vs, &mut k)?;
        while self.peek() == '+' {
            self.i += 1;
            self.term(&mut vs, &mut k)?;
        }
        Some(E::S(vs, k))
    }
    fn rec(&mut self) -> Option<E> {
        if self.peek() == 'λ' {
            self.i += 1;
            let v = self.variable()?;
            self.eat('.')?;
            let f = self.expr()?;
            self.eat(' ')?;
            let b = self.expr()?;
            return Some(E::R(v, Box::new(f), Box::new(num(1)), Box::new(b)));
        }
        self.eat('(')?;
        self.eat('λ')?;
        let v = self.variable()?;
        self.eat('.')?;
        let f = self.expr()?;
        self.eat(')')?;
        self.eat('^')?;
        let n = self.expr()?;
        self.eat(' ')?;
        let b = self.expr()?;
        Some(E::R(v, Box::new(f), Box::new(n), Box::new(b)))
    }
}

fn read_expr(s: &str) -> Option<E> {
    let cs: Vec<char> = s.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let e = p.expr()?;
    if p.i == cs.len() { Some(e) } else { None }
}

// ------------------------------------------------------------------ reference tapes
#[derive(Clone, Debug, PartialEq)]
enum Rep {
    Fin(E),
    Inf,
}
#[derive(Clone, Debug, PartialEq)]
struct Block {
    sym: Vec<u8>, // in reading order (left to right)
    rep: Rep,
}
#[derive(Clone, Debug, PartialEq)]
struct Conf {
    left: Vec<Block>, // left to right
    right: Vec<Block>,
    state: u8, // 25 = halt
    dir: u8,   // 0 left, 1 right
}

fn block_text(b: &Block) -> String {
    let s: String = b.sym.iter().map(|x| x.to_string()).collect();
    match &b.rep {
        Rep::Inf => s + "^inf",
        Rep::Fin(e) if *e == num(1) => s,
        Rep::Fin(e) => format!("{}^{}", s, text(e)),
    }
}
fn half_text(h: &[Block]) -> String {
    h.iter().map(block_text).collect::<Vec<_>>().join(" ")
}
fn conf_text(c: &Conf) -> String {
    let q = (b'A' + c.state) as char;
    let h = if c.dir == 0 { format!("<{}", q) } else { format!("{}>", q) };
    format!("{} {} {}", half_text(&c.left), h, half_text(&c.right)).trim().to_string()
}

// Build the code's configuration: recursive counts enter by substituting placeholder variables.
fn conf_make(c: &Conf) -> Config {
    let mut t = c.clone();
    let mut sub: Vec<(Variable, CountExpr)> = vec![];
    let mut next = 20u8;
    for h in [&mut t.left, &mut t.right] {
        for b in h.iter_mut() {
            if let Rep::Fin(e) = &b.rep {
                if matches!(e, E::R(..)) {
                    sub.push((var(next), conv(e)));
                    b.rep = Rep::Fin(vs(next, 1, 0));
                    next += 1;
                }
            }
        }
    }
    let base = Config::from_str(&conf_text(&t)).unwrap();
    if sub.is_empty() { base } else { base.subst(&VarSubst::from(&sub)).unwrap() }
}

fn read_conf(s: &str) -> Option<Conf> {
    let cs: Vec<char> = s.chars().collect();
    let mut toks: Vec<String> = vec![];
    let (mut depth, mut cur) = (0, String::new());
    for c in cs {
        if c == '(' {
            depth += 1;
        }
        if c == ')' {
            depth -= 1;
        }
        if c == ' ' && depth == 0 {
            if !cur.is_empty() {
                toks.push(cur.clone());
                cur.clear();
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut out = Conf { left: vec![], right: vec![], state: 255, dir: 0 };
    for t in toks {
        let b = t.as_bytes();
        if b.len() == 2 && b[0] == b'<' {
            out.state = b[1] - b'A';
            out.dir = 0;
        } else if b.len() == 2 && b[1] == b'>' {
            out.state = b[0] - b'A';
            out.dir = 1;
        } else {
            let (sy, rep) = match t.find('^') {
                None => (t.clone(), Rep::Fin(num(1))),
                Some(p) => {
                    let r = &t[p + 1..];
                    (t[..p].to_string(), if r == "inf" { Rep::Inf } else { Rep::Fin(read_expr(r)?) })
                }
            };
            let sym: Option<Vec<u8>> = sy.chars().map(|c| c.to_digit(10).map(|d| d as u8)).collect();
            let b = Block { sym: sym?, rep };
            if out.state == 255 { out.left.push(b) } else { out.right.push(b) }
        }
    }
    if out.state == 255 { None } else { Some(out) }
}

// Cells of a half tape from the head outwards; infinite tapes are cut at W cells.
const W: usize = 160;
#[derive(Clone, Debug, PartialEq)]
struct Half {
    cells: Vec<u8>, // nearest the head first
    tail: Vec<u8>,  // repeated for ever (empty: the tape ends)
}
fn cells(h: &[Block], left: bool, env: &Env) -> Option<Half> {
    let mut out = vec![];
    let order: Vec<&Block> = if left { h.iter().rev().collect() } else { h.iter().collect() };
    for b in order {
        let mut s = b.sym.clone();
        if left {
            s.reverse();
        }
        match &b.rep {
            Rep::Inf => return Some(Half { cells: out, tail: s }),
            Rep::Fin(e) => {
                let n = eval(e, env)?;
                if n as usize * s.len() + out.len() > W / 2 {
                    return None;
                }
                for _ in 0..n {
                    out.extend_from_slice(&s);
                }
            }
        }
    }
    Some(Half { cells: out, tail: vec![] })
}
fn expand(h: &Half) -> (Vec<u8>, bool) {
    let mut v = h.cells.clone();
    if h.tail.is_empty() {
        return (v, false);
    }
    let mut i = 0;
    while v.len() < W {
        v.push(h.tail[i % h.tail.len()]);
        i += 1;
    }
    (v, true)
}
fn same_half(a: &Half, b: &Half) -> bool {
    expand(a) == expand(b)
}

#[derive(Clone, Debug, PartialEq)]
struct Run {
    l: Half,
    r: Half,
    state: u8,
    dir: u8,
}
fn conc(c: &Conf, env: &Env) -> Option<Run> {
    Some(Run { l: cells(&c.left, true, env)?, r: cells(&c.right, false, env)?, state: c.state, dir: c.dir })
}
fn pop(h: &mut Half) -> Option<u8> {
    if h.cells.is_empty() {
        if h.tail.is_empty() {
            return None;
        }
        h.cells = h.tail.clone();
    }
    Some(h.cells.remove(0))
}
type Table = Vec<Vec<Option<(u8, u8, u8)>>>; // symbol, dir, state (25 = halt)
fn step(c: &mut Run, tm: &Table) -> bool {
    if c.state == 25 || c.state as usize >= tm.len() {
        return false;
    }
    let mut h = if c.dir == 0 { c.l.clone() } else { c.r.clone() };
    let s = match pop(&mut h) {
        None => return false,
        Some(s) => s,
    };
    let t = match tm[c.state as usize].get(s as usize) {
        Some(Some(t)) => *t,
        _ => return false,
    };
    if c.dir == 0 { c.l = h } else { c.r = h }
    c.state = t.2;
    c.dir = t.1;
    if c.dir == 0 { c.r.cells.insert(0, t.0) } else { c.l.cells.insert(0, t.0) }
    true
}
// The same physical configuration: "1 <A 0" and "A> 10" put the head on the same cell.
fn same_run(a: &Run, b: &Run) -> bool {
    if a.state != b.state {
        return false;
    }
    if a.dir == b.dir {
        return same_half(&a.l, &b.l) && same_half(&a.r, &b.r);
    }
    let mut b = b.clone();
    if b.dir == 0 {
        match pop(&mut b.l) {
            None => return false,
            Some(s) => b.r.cells.insert(0, s),
        }
    } else {
        match pop(&mut b.r) {
            None => return false,
            Some(s) => b.l.cells.insert(0, s),
        }
    }
    same_half_cut(&a.l, &b.l) && same_half_cut(&a.r, &b.r)
}
fn same_half_cut(a: &Half, b: &Half) -> bool {
    let (x, i) = expand(a);
    let (y, j) = expand(b);
    if i != j {
        return false;
    }
    if i { x[..W - 2] == y[..W - 2] } else { x == y }
}
fn table_text(t: &Table) -> String {
    t.iter().map(|r| r.iter().map(|c| match c {
        None => "---".to_string(),
        Some((s, d, q)) => format!("{}{}{}", s, if *d == 0 { 'L' } else { 'R' }, (b'A' + q) as char),
    }).collect::<String>()).collect::<Vec<_>>().join("_")
}

// ------------------------------------------------------------------ bookkeeping
struct Stat {
    states: AtomicU64,
    trans: AtomicU64,
    refused: AtomicU64,
    hits: AtomicU64,
    fails: Mutex<BTreeMap<String, (u64, String)>>,
}
impl Stat {
    fn new() -> Stat {
        Stat { states: 0.into(), trans: 0.into(), refused: 0.into(), hits: 0.into(), fails: Mutex::new(BTreeMap::new()) }
    }
    fn fail(&self, key: &str, msg: String) {
        let mut f = self.fails.lock().unwrap();
        let e = f.entry(key.to_string()).or_insert((0, msg.clone()));
        e.0 += 1;
        if msg.len() < e.1.len() {
            e.1 = msg;
        }
    }
}
fn par<F: Fn(usize, &Stat) + Sync>(name: &str, n: usize, f: F) {
    let st = Stat::new();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                if catch_unwind(AssertUnwindSafe(|| f(i, &st))).is_err() {
                    st.fail("panic", format!("{} item {} panics outside a guarded call", name, i));
                }
            });
        }
    });
    println!("STAT {} {} {} {} {}", name, st.states.load(Ordering::Relaxed), st.trans.load(Ordering::Relaxed), st.refused.load(Ordering::Relaxed), st.hits.load(Ordering::Relaxed));
    for (k, (c, m)) in st.fails.lock().unwrap().iter() {
        println!("FAIL {}\t{}\t{}\t{}", name, k, c, m.replace('\n', " ").replace('\t', " "));
    }
}
// A panic is a refusal: nothing is accepted.
fn guard<T>(st: &Stat, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(_) => {
            st.refused.fetch_add(1, Ordering::Relaxed);
            None
        }
    }
}
fn envs(top: u64) -> Vec<Env> {
    let mut out = vec![];
    for n in 0..=top {
        for a in 0..=top {
            for b in 0..=1 {
                let mut e = [0u64; 40];
                for (i, x) in e.iter_mut().enumerate() {
                    *x = 5 + i as u64; // anything else keeps a value of its own
                }
                e[0] = n;
                e[1] = a;
                e[2] = b * 2;
                out.push(e);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ expression sets
fn sums() -> Vec<E> {
    let mut out = vec![];
    for cn in 0..3u64 {
        for ca in 0..3u64 {
            for k in 0..3u64 {
                let mut v = vec![];
                if cn > 0 {
                    v.push((0, cn));
                }
                if ca > 0 {
                    v.push((1, ca));
                }
                out.push(E::S(v, k));
            }
        }
    }
    out.push(vs(2, 1, 0));
    out.push(E::S(vec![(0, 1), (2, 1)], 0));
    out.push(E::S(vec![(1, 1), (2, 2)], 1));
    out
}
fn recs(fs: &[E], reps: &[E], bases: &[E], vars: &[u8]) -> Vec<E> {
    let mut out = vec![];
    for v in vars {
        for f in fs {
            for n in reps {
                for b in bases {
                    out.push(E::R(*v, Box::new(f.clone()), Box::new(n.clone()), Box::new(b.clone())));
                }
            }
        }
    }
    out
}
fn rec1() -> Vec<E> {
    let fs = [vs(0, 1, 0), vs(0, 1, 1), vs(0, 2, 0), vs(1, 1, 0), vs(1, 2, 1), E::S(vec![(0, 1), (1, 1)], 0), E::S(vec![(0, 2), (1, 1)], 1), num(1), E::S(vec![(0, 1), (2, 1)], 0)];
    let reps = [num(0), num(1), num(2), vs(0, 1, 0), vs(1, 1, 0), vs(1, 1, 1), vs(0, 2, 0)];
    let bases = [num(0), num(1), vs(0, 1, 0), vs(1, 1, 0), E::S(vec![(0, 1), (1, 1)], 1)];
    recs(&fs, &reps, &bases, &[0, 1])
}
fn few_recs() -> Vec<E> {
    vec![
        E::R(0, Box::new(vs(0, 2, 1)), Box::new(vs(1, 1, 0)), Box::new(vs(0, 1, 0))),
        E::R(1, Box::new(E::S(vec![(0, 1), (1, 1)], 0)), Box::new(num(2)), Box::new(vs(1, 1, 0))),
        E::R(0, Box::new(E::S(vec![(0, 1), (1, 1)], 0)), Box::new(vs(0, 1, 0)), Box::new(num(1))),
        E::R(2, Box::new(E::S(vec![(2, 1), (0, 1)], 1)), Box::new(vs(1, 1, 0)), Box::new(vs(1, 1, 0))),
        E::R(1, Box::new(vs(1, 1, 1)), Box::new(num(1)), Box::new(vs(2, 1, 0))),
        E::R(0, Box::new(vs(0, 3, 0)), Box::new(vs(0, 1, 1)), Box::new(num(1))),
        E::R(0, Box::new(vs(1, 1, 0)), Box::new(vs(0, 1, 0)), Box::new(num(0))),
    ]
}
fn rec2() -> Vec<E> {
    let r = few_recs();
    let mut fs = r.clone();
    fs.push(vs(0, 1, 1));
    fs.push(vs(1, 2, 0));
    fs.push(E::S(vec![(0, 1), (1, 1)], 0));
    let reps = [num(1), num(2), vs(0, 1, 0), r[4].clone()];
    let mut bases = r.clone();
    bases.push(vs(1, 1, 0));
    bases.push(num(1));
    recs(&fs, &reps, &bases, &[0, 1, 2])
}

fn value_check(st: &Stat, key: &str, got: &CountExpr, want: &dyn Fn(&Env) -> Option<u64>, es: &[Env], what: &dyn Fn() -> String) {
    let shown = format!("{}", got);
    let e = match read_expr(&shown) {
        None => {
            st.fail("unreadable", format!("{} is displayed as {}", what(), shown));
            return;
        }
        Some(e) => e,
    };
    for env in es {
        st.trans.fetch_add(1, Ordering::Relaxed);
        if let (Some(w), Some(g)) = (want(env), eval(&e, env)) {
            if w != g {
                st.fail(key, format!("{} gives {}, which is {} instead of {} for n={} a={} b={}", what(), shown, g, w, env[0], env[1], env[2]));
                return;
            }
        }
    }
}

fn t_values(thorough: bool) {
    let mut all = sums();
    all.extend(rec1());
    all.extend(rec2());
    let es = envs(3);
    let conv_all: Vec<CountExpr> = all.iter().map(conv).collect();
    // display, decrement, is_zero
    par("display", all.len(), |i, st| {
        st.states.fetch_add(1, Ordering::Relaxed);
        let (e, c) = (&all[i], &conv_all[i]);
        value_check(st, "display", c, &|env| eval(e, env), &es, &|| text(e));
        if c.is_zero() && es.iter().any(|env| eval(e, env).map_or(false, |x| x != 0)) {
            st.fail("is_zero", format!("{} is called zero", text(e)));
        }
        if let Some(Some(d)) = guard(st, || c.decrement()) {
            if es.iter().any(|env| eval(e, env) == Some(0)) {
                st.fail("decrement", format!("{} is decremented although it can be 0", text(e)));
            }
            value_check(st, "decrement", &d, &|env| eval(e, env).and_then(|x| x.checked_sub(1)), &es, &|| format!("({}) - 1", text(e)));
        }
        let fv = c.free_vars();
        for (v, name) in [(0usize, "n"), (1, "a"), (2, "b")] {
            if !fv.contains(&var(v as u8)) {
                for env in &es {
                    let mut f = *env;
                    f[v] += 1;
                    if let (Some(x), Some(y)) = (eval(e, env), eval(e, &f)) {
                        if x != y {
                            st.fail("free_vars", format!("{} depends on {} which is not among its free variables", text(e), name));
                        }
                    }
                }
            }
        }
    });
    // substitution: one and two variables at once
    let mut vals: Vec<E> = vec![num(0), num(1), num(2), vs(0, 1, 0), vs(1, 1, 0), vs(2, 1, 0), vs(0, 1, 1), vs(1, 1, 2), vs(0, 2, 0), E::S(vec![(0, 1), (1, 1)], 0)];
    vals.extend(few_recs());
    let mut subs: Vec<Vec<(u8, E)>> = vec![];
    for v in 0..3u8 {
        for x in &vals {
            subs.push(vec![(v, x.clone())]);
        }
    }
    for x in &vals {
        for y in &vals {
            subs.push(vec![(0, x.clone()), (1, y.clone())]);
        }
    }
    let csubs: Vec<VarSubst> = subs.iter().map(|s| VarSubst::from(&s.iter().map(|(v, e)| (var(*v), conv(e))).collect::<Vec<_>>())).collect();
    let es2 = envs(2);
    let pick: Vec<usize> = (0..all.len()).filter(|i| thorough || *i < 30 || matches!(&all[*i], E::R(_, _, n, _) if **n != num(0))).collect();
    par("subst", pick.len(), |j, st| {
        let i = pick[j];
        for (s, cs) in subs.iter().zip(&csubs) {
            st.states.fetch_add(1, Ordering::Relaxed);
            let Some(Ok(got)) = guard(st, || conv_all[i].subst(cs)) else { continue };
            value_check(st, "subst", &got, &|env| {
                let mut inner = *env;
                for (v, e) in s {
                    inner[*v as usize] = eval(e, env)?;
                }
                eval(&all[i], &inner)
            }, &es2, &|| format!("{} with {}", text(&all[i]), s.iter().map(|(v, e)| format!("{} := {}", vname(*v), text(e))).collect::<Vec<_>>().join(", ")));
        }
    });
    // sums, differences, functions
    let small: Vec<usize> = { let mut v: Vec<usize> = (0..30).collect(); v.extend(30..30 + rec1().len()); v };
    par("addsub", small.len(), |j, st| {
        let i = small[j];
        for k in &small {
            let k = *k;
            st.states.fetch_add(1, Ordering::Relaxed);
            let (x, y) = (&all[i], &all[k]);
            if let Some(Some(s)) = guard(st, || conv_all[i].checked_add(&conv_all[k])) {
                value_check(st, "add", &s, &|env| Some(eval(x, env)? + eval(y, env)?), &es2, &|| format!("({}) + ({})", text(x), text(y)));
            }
            if let Some(Some(s)) = guard(st, || conv_all[i].checked_sub(&conv_all[k])) {
                st.hits.fetch_add(1, Ordering::Relaxed);
                for env in &es2 {
                    if let (Some(p), Some(q)) = (eval(x, env), eval(y, env)) {
                        if p < q {
                            st.fail("sub", format!("({}) - ({}) is allowed although it is {} - {} for n={} a={} b={}", text(x), text(y), p, q, env[0], env[1], env[2]));
                            break;
                        }
                    }
                }
                value_check(st, "sub", &s, &|env| eval(x, env)?.checked_sub(eval(y, env)?), &es2, &|| format!("({}) - ({})", text(x), text(y)));
            }
        }
    });
    // functions
    let fexprs: Vec<E> = sums().into_iter().chain(few_recs()).collect();
    par("functions", fexprs.len(), |i, st| {
        for fv in 0..3u8 {
            let f = Function { bound_var: var(fv), expr: conv(&fexprs[i]) };
            if f.is_identity() && fexprs[i] != vs(fv, 1, 0) {
                st.fail("identity", format!("λ{}.{} is called the identity", vname(fv), text(&fexprs[i])));
            }
            for x in &vals {
                st.states.fetch_add(1, Ordering::Relaxed);
                if let Some(got) = guard(st, || f.apply(conv(x))) {
                    value_check(st, "apply", &got, &|env| {
                        let mut inner = *env;
                        inner[fv as usize] = eval(x, env)?;
                        eval(&fexprs[i], &inner)
                    }, &es2, &|| format!("(λ{}.{}) {}", vname(fv), text(&fexprs[i]), text(x)));
                }
            }
            for g in &fexprs {
                for gv in 0..2u8 {
                    st.states.fetch_add(1, Ordering::Relaxed);
                    let gg = Function { bound_var: var(gv), expr: conv(g) };
                    let Some(h) = guard(st, || f.compose(&gg)) else { continue };
                    // a function's other variables keep their meaning only if they are not its bound variable
                    let shown = format!("{}", h.expr);
                    let (Some(he), hv) = (read_expr(&shown), h.bound_var) else { continue };
                    let Some(hid) = (0..26u8).find(|v| var(*v) == hv) else { continue };
                    for env in &es2 {
                        for arg in 0..3u64 {
                            let mut e1 = *env;
                            e1[fv as usize] = arg;
                            let Some(m) = eval(&fexprs[i], &e1) else { continue };
                            let mut e2 = *env;
                            e2[gv as usize] = m;
                            let mut e3 = *env;
                            e3[hid as usize] = arg;
                            if let (Some(w), Some(g2)) = (eval(g, &e2), eval(&he, &e3)) {
                                st.trans.fetch_add(1, Ordering::Relaxed);
                                if w != g2 {
                                    st.fail("compose", format!("λ{}.{} then λ{}.{} is λ{}.{}: {} instead of {}", vname(fv), text(&fexprs[i]), vname(gv), text(g), vname(hid), shown, g2, w));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // equality as the validator sees it: 1^x against 1^y
    let confs: Vec<Option<Config>> = all.iter().map(|e| catch_unwind(AssertUnwindSafe(|| conf_make(&Conf { left: vec![Block { sym: vec![1], rep: Rep::Fin(e.clone()) }], right: vec![], state: 0, dir: 0 }))).ok()).collect();
    let vals_of: Vec<Vec<Option<u64>>> = all.iter().map(|e| es.iter().map(|env| eval(e, env)).collect()).collect();
    par("equal", all.len(), |i, st| {
        for j in 0..all.len() {
            st.states.fetch_add(1, Ordering::Relaxed);
            let (Some(a), Some(b)) = (&confs[i], &confs[j]) else { continue };
            if guard(st, || a.equivalent_to(b)) == Some(true) {
                st.hits.fetch_add(1, Ordering::Relaxed);
                for k in 0..es.len() {
                    if let (Some(x), Some(y)) = (vals_of[i][k], vals_of[j][k]) {
                        if x != y {
                            st.fail("equal", format!("1^{} and 1^{} are called equal although the counts are {} and {} for n={} a={} b={}", text(&all[i]), text(&all[j]), x, y, es[k][0], es[k][1], es[k][2]));
                            break;
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ parsing
fn t_parse(thorough: bool) {
    // every string over a small alphabet: what parses must mean what it says
    let alpha: Vec<char> = "012na+-^x(".chars().collect();
    let len = if thorough { 6 } else { 5 };
    let es = envs(2);
    par("parse_counts", alpha.len() * alpha.len(), |i, st| {
        let pre = [alpha[i % alpha.len()], alpha[i / alpha.len()]];
        let mut stack: Vec<Vec<char>> = vec![pre.to_vec()];
        if i < alpha.len() {
            stack.push(vec![alpha[i]]);
        }
        while let Some(s) = stack.pop() {
            let t: String = s.iter().collect();
            st.states.fetch_add(1, Ordering::Relaxed);
            // meaning: terms joined by +, each [number][letter] or number
            let mut want: Option<(Vec<(u8, u64)>, u64)> = Some((vec![], 0));
            for part in t.split('+') {
                let digits: String = part.chars().take_while(|c| c.is_ascii_digit()).collect();
                let rest: String = part.chars().skip(digits.len()).collect();
                let ok = match (digits.as_str(), rest.as_str()) {
                    ("", "") => false,
                    (d, "") => {
                        if let Some(w) = want.as_mut() {
                            w.1 += d.parse::<u64>().unwrap();
                        }
                        true
                    }
                    (d, r) if r.len() == 1 && r.chars().all(|c| c.is_ascii_lowercase()) => {
                        let v = NAMES.iter().position(|x| *x as char == r.chars().next().unwrap()).unwrap() as u8;
                        if let Some(w) = want.as_mut() {
                            w.0.push((v, if d.is_empty() { 1 } else { d.parse().unwrap() }));
                        }
                        true
                    }
                    _ => false,
                };
                if !ok {
                    want = None;
                    break;
                }
            }
            let got = guard(st, || CountExpr::from_str(&t));
            st.trans.fetch_add(1, Ordering::Relaxed);
            match (got, want) {
                (Some(Ok(g)), Some((v, k))) => {
                    st.hits.fetch_add(1, Ordering::Relaxed);
                    let w = E::S(v, k);
                    value_check(st, "parse", &g, &|env| eval(&w, env), &es, &|| format!("parsing {:?}", t));
                }
                (Some(Ok(g)), None) => st.fail("parse", format!("{:?} is not a sum of terms, yet it is read as {}", t, g)),
                (Some(Err(_)), Some(_)) | (None, Some(_)) => st.fail("parse", format!("{:?} is refused", t)),
                _ => {}
            }
            if s.len() < len && (s.len() > 1) {
                for c in &alpha {
                    let mut n = s.clone();
                    n.push(*c);
                    stack.push(n);
                }
            }
        }
    });
    // machines
    let cellset: Vec<Option<(u8, u8, u8)>> = {
        let mut v = vec![None];
        for s in 0..2 {
            for d in 0..2 {
                for q in [0u8, 1, 25] {
                    v.push(Some((s, d, q)));
                }
            }
        }
        v
    };
    let k = cellset.len();
    par("parse_machines", k * k, |i, st| {
        for j in 0..k * k {
            let t: Table = vec![vec![cellset[i % k], cellset[i / k]], vec![cellset[j % k], cellset[j / k]]];
            let s = table_text(&t);
            st.states.fetch_add(1, Ordering::Relaxed);
            match guard(st, || TM::from_str(&s)) {
                Some(Ok(tm)) => {
                    if tm.to_string() != s || tm.num_states() != 2 || tm.num_symbols() != 2 {
                        st.fail("machine", format!("{} is displayed as {} ({} states, {} symbols)", s, tm, tm.num_states(), tm.num_symbols()));
                    }
                    for q in 0..2u8 {
                        for x in 0..2u8 {
                            st.trans.fetch_add(1, Ordering::Relaxed);
                            let got = format!("{}", tm.trans(q, x));
                            let want = table_text(&vec![vec![t[q as usize][x as usize]]]);
                            if got != want {
                                st.fail("machine", format!("{}: cell {}{} is {} instead of {}", s, (b'A' + q) as char, x, got, want));
                            }
                        }
                    }
                }
                _ => st.fail("machine", format!("{} is refused", s)),
            }
        }
    });
}

// ------------------------------------------------------------------ tapes
fn reps_small() -> Vec<E> {
    vec![num(0), num(1), num(2), vs(0, 1, 0), vs(0, 1, 1), vs(1, 1, 0), E::S(vec![(0, 1), (1, 1)], 0)]
}
fn halves(left: bool, thorough: bool) -> Vec<Vec<Block>> {
    let mut blocks = vec![];
    let syms: Vec<Vec<u8>> = vec![vec![0], vec![1], vec![0, 1], vec![1, 0]];
    let mut reps = reps_small();
    reps.push(few_recs()[4].clone());
    for s in &syms {
        for r in &reps {
            if s.len() == 2 && !thorough && !reps[1..5].contains(r) {
                continue;
            }
            blocks.push(Block { sym: s.clone(), rep: Rep::Fin(r.clone()) });
        }
    }
    let mut fin: Vec<Vec<Block>> = vec![vec![]];
    for a in &blocks {
        fin.push(vec![a.clone()]);
    }
    for a in &blocks {
        for b in &blocks {
            fin.push(vec![a.clone(), b.clone()]);
        }
    }
    let mut out = fin.clone();
    for f in &fin {
        if f.len() == 2 && !thorough && f.iter().any(|b| b.sym.len() > 1) {
            continue;
        }
        for z in [vec![0u8], vec![1]] {
            let mut g = f.clone();
            let inf = Block { sym: z, rep: Rep::Inf };
            if left { g.insert(0, inf) } else { g.push(inf) }
            out.push(g);
        }
    }
    out
}
fn t_tapes(thorough: bool) {
    let es = envs(2);
    for left in [true, false] {
        let hs = halves(left, thorough);
        let mk = |h: &Vec<Block>| Conf { left: if left { h.clone() } else { vec![] }, right: if left { vec![] } else { h.clone() }, state: 0, dir: 1 };
        let cs: Vec<Config> = hs.iter().map(|h| conf_make(&mk(h))).collect();
        let con: Vec<Vec<Option<(Half, (Vec<u8>, bool))>>> = hs.iter().map(|h| es.iter().map(|env| cells(h, left, env).map(|x| { let e = expand(&x); (x, e) })).collect()).collect();
        let side = if left { "left" } else { "right" };
        // display
        par(&format!("tape_text_{}", side), hs.len(), |i, st| {
            st.states.fetch_add(1, Ordering::Relaxed);
            let shown = cs[i].to_string();
            match read_conf(&shown) {
                None => st.fail("tape-text", format!("{} is displayed as {}", conf_text(&mk(&hs[i])), shown)),
                Some(c) => for (k, env) in es.iter().enumerate() {
                    st.trans.fetch_add(1, Ordering::Relaxed);
                    let got = cells(if left { &c.left } else { &c.right }, left, env).map(|x| expand(&x));
                    if got != con[i][k].as_ref().map(|x| x.1.clone()) && got.is_some() {
                        st.fail("tape-text", format!("{} is displayed as {}", conf_text(&mk(&hs[i])), shown));
                        break;
                    }
                },
            }
        });
        let news: Vec<Vec<Block>> = vec![vec![], vec![Block { sym: vec![1], rep: Rep::Fin(num(1)) }, Block { sym: vec![0, 1], rep: Rep::Fin(vs(0, 1, 0)) }]];
        let nc: Vec<Config> = news.iter().map(|h| { let mut c = mk(h); c.state = 1; c.dir = 0; conf_make(&c) }).collect();
        let nv: Vec<Vec<Option<Half>>> = news.iter().map(|h| es.iter().map(|env| cells(h, left, env)).collect()).collect();
        let inf = |h: &Vec<Block>| h.iter().any(|b| b.rep == Rep::Inf);
        par(&format!("replace_{}", side), hs.len(), |i, st| {
            for j in 0..hs.len() {
                // an infinite block of one symbol against an infinite block of the other never ends
                st.states.fetch_add(1, Ordering::Relaxed);
                // equality
                let eq = guard(st, || cs[i].equivalent_to(&cs[j]));
                if eq == Some(true) {
                    st.hits.fetch_add(1, Ordering::Relaxed);
                    for k in 0..es.len() {
                        if let (Some(x), Some(y)) = (&con[i][k], &con[j][k]) {
                            st.trans.fetch_add(1, Ordering::Relaxed);
                            if x.1 != y.1 {
                                st.fail("equivalent", format!("{} and {} are called equivalent, but differ for n={} a={}", conf_text(&mk(&hs[i])), conf_text(&mk(&hs[j])), es[k][0], es[k][1]));
                                break;
                            }
                        }
                    }
                }
                for (m, new) in nc.iter().enumerate() {
                    if inf(&hs[j]) != (m > 0 && false) && inf(&hs[j]) {
                        // old covers the whole half tape
                    }
                    let Some(Ok(got)) = guard(st, || cs[i].replace(&cs[j], new)) else { break };
                    let shown = got.to_string();
                    let Some(c) = read_conf(&shown) else {
                        st.fail("tape-text", format!("unreadable {}", shown));
                        continue;
                    };
                    if c.state != 1 || c.dir != 0 {
                        st.fail("replace", format!("the head is not the new one: {}", shown));
                    }
                    for (k, env) in es.iter().enumerate() {
                        let (Some(x), Some(y), Some(z)) = (&con[i][k], &con[j][k], &nv[m][k]) else { continue };
                        let Some(g) = cells(if left { &c.left } else { &c.right }, left, env) else { continue };
                        st.trans.fetch_add(1, Ordering::Relaxed);
                        let n = y.1 .0.len();
                        let ok = if y.1 .1 {
                            x.1 == y.1 && same_half(&g, z)
                        } else {
                            n <= x.1 .0.len() && x.1 .0[..n] == y.1 .0[..] && {
                                let mut want: Vec<u8> = expand(z).0;
                                want.extend_from_slice(&x.1 .0[n..]);
                                let (have, hi) = expand(&g);
                                if x.1 .1 { hi && have.iter().zip(&want).take(W - 60).all(|(p, q)| p == q) } else { !hi && have == want }
                            }
                        };
                        if !ok {
                            st.fail("replace", format!("replacing {} in {} by {} gives {}, which is wrong for n={} a={}", half_text(&hs[j]), half_text(&hs[i]), half_text(&news[m]), shown, env[0], env[1]));
                            break;
                        }
                    }
                }
            }
        });
    }
    // one machine step
    let lh: Vec<Vec<Block>> = vec![vec![], vec![Block { sym: vec![0], rep: Rep::Inf }], vec![Block { sym: vec![1], rep: Rep::Fin(vs(0, 1, 0)) }], vec![Block { sym: vec![0, 1], rep: Rep::Fin(vs(0, 1, 1)) }], vec![Block { sym: vec![1, 0], rep: Rep::Fin(num(2)) }]];
    let cellset: Vec<Option<(u8, u8, u8)>> = {
        let mut v = vec![None];
        for s in 0..2 {
            for d in 0..2 {
                for q in [0u8, 1, 25] {
                    v.push(Some((s, d, q)));
                }
            }
        }
        v
    };
    let rh = halves(false, false);
    let lall = halves(true, false);
    par("step", rh.len(), |i, st| {
        for dir in 0..2u8 {
            for other in &lh {
                // front tape: every half tape; back tape: a few
                let c = if dir == 1 { Conf { left: other.clone(), right: rh[i].clone(), state: 0, dir } } else {
                    let mut o = other.clone();
                    o.reverse();
                    Conf { left: lall[i].clone(), right: o, state: 0, dir }
                };
                let made = conf_make(&c);
                for q in [0u8, 25] {
                    for cell in &cellset {
                        st.states.fetch_add(1, Ordering::Relaxed);
                        let t: Table = vec![vec![*cell, *cell], vec![None, None]];
                        // the other symbol's cell is told apart by its written symbol
                        let t2: Table = match cell { Some((s, d, p)) => vec![vec![Some((*s, *d, *p)), Some((1 - *s, *d, *p))], vec![None, None]], None => t };
                        let tm = TM::from_str(&table_text(&t2)).unwrap();
                        let mut got = made.clone();
                        if q == 25 {
                            got = Config::from_str(&conf_text(&Conf { state: 25, ..strip_rec(&c) })).unwrap();
                        }
                        let res = guard(st, || { let r = got.step(&tm); (r, got) });
                        let Some((Ok(()), got)) = res else { continue };
                        if q == 25 {
                            st.fail("step", format!("{} takes a step although it has halted", conf_text(&c)));
                            continue;
                        }
                        st.hits.fetch_add(1, Ordering::Relaxed);
                        let shown = got.to_string();
                        let Some(g) = read_conf(&shown) else { st.fail("tape-text", shown); continue };
                        for env in &es {
                            st.trans.fetch_add(1, Ordering::Relaxed);
                            let (Some(mut a), Some(b)) = (conc(&c, env), conc(&g, env)) else { continue };
                            if !step(&mut a, &t2) || a.state != b.state || a.dir != b.dir || !same_half_cut(&a.l, &b.l) || !same_half_cut(&a.r, &b.r) {
                                st.fail("step", format!("{}: one step from {} gives {}, which is wrong for n={} a={}", table_text(&t2), conf_text(&c), shown, env[0], env[1]));
                                break;
                            }
                        }
                    }
                }
            }
        }
    });
}
fn strip_rec(c: &Conf) -> Conf {
    let mut c = c.clone();
    for h in [&mut c.left, &mut c.right] {
        for b in h.iter_mut() {
            if matches!(&b.rep, Rep::Fin(E::R(..))) {
                b.rep = Rep::Fin(num(1));
            }
        }
    }
    c
}

// ------------------------------------------------------------------ the validator
fn bl(sym: &[u8], rep: E) -> Block {
    Block { sym: sym.to_vec(), rep: Rep::Fin(rep) }
}
#[derive(Clone)]
enum Step {
    T(u64),
    R(usize, Vec<(u8, E)>),
    I(Vec<(u8, E)>),
}
fn mk_step(s: &Step) -> ProofStep {
    let sub = |v: &Vec<(u8, E)>| VarSubst::from(&v.iter().map(|(x, e)| (var(*x), conv(e))).collect::<Vec<_>>());
    match s {
        Step::T(n) => ProofStep::TMSteps(*n),
        Step::R(i, v) => ProofStep::RuleStep { rule_id: *i, var_assignment: sub(v) },
        Step::I(v) => ProofStep::InductiveStep(sub(v)),
    }
}
fn step_text(s: &Step) -> String {
    let sub = |v: &Vec<(u8, E)>| v.iter().map(|(x, e)| format!("{}:={}", vname(*x), text(e))).collect::<Vec<_>>().join(",");
    match s {
        Step::T(n) => format!("{} steps", n),
        Step::R(i, v) => format!("rule {}[{}]", i, sub(v)),
        Step::I(v) => format!("induction[{}]", sub(v)),
    }
}
fn proof_text(p: &[Step]) -> String {
    p.iter().map(step_text).collect::<Vec<_>>().join("; ")
}
fn seqs(steps: &[Step], len: usize) -> Vec<Vec<Step>> {
    let mut out: Vec<Vec<Step>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        let mut next = vec![];
        for p in &last {
            for s in steps {
                let mut q = p.clone();
                q.push(s.clone());
                next.push(q);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

struct Truth {
    memo: Mutex<HashMap<(usize, usize, usize), bool>>,
}
// Is init -> fin true for every assignment?
fn holds(tm: &Table, a: &Conf, b: &Conf, es: &[Env]) -> Result<(), String> {
    for env in es {
        let (Some(mut x), Some(y)) = (conc(a, env), conc(b, env)) else { continue };
        let mut ok = false;
        for _ in 0..1500 {
            if same_run(&x, &y) {
                ok = true;
                break;
            }
            if !step(&mut x, tm) || x.l.cells.len() + x.r.cells.len() > 3 * W {
                break;
            }
        }
        if !ok {
            return Err(format!("n={} a={} b={}", env[0], env[1], env[2]));
        }
    }
    Ok(())
}

fn machines(two: bool, thorough: bool) -> Vec<Table> {
    let mut out = vec![];
    let run = |qs: &[u8]| {
        let mut v = vec![];
        for s in 0..2u8 {
            for d in 0..2u8 {
                for q in qs {
                    v.push(Some((s, d, *q)));
                }
            }
        }
        v
    };
    if !two {
        let mut c = run(&[0]);
        c.push(None);
        c.push(Some((1, 1, 25)));
        for x in &c {
            for y in &c {
                out.push(vec![vec![*x, *y]]);
            }
        }
    } else {
        // sweepers: A runs right over 1s (or 0s), B runs left
        let c = run(&[0, 1]);
        for x in &c {
            for y in &c {
                for z in if thorough { vec![Some((0, 0, 1)), Some((1, 0, 1)), Some((1, 1, 0)), None] } else { vec![Some((1, 0, 1))] } {
                    for w in if thorough { vec![Some((0, 0, 1)), Some((1, 0, 1)), Some((1, 1, 0))] } else { vec![Some((0, 0, 1)), Some((1, 1, 0))] } {
                        out.push(vec![vec![*x, *y], vec![z, w]]);
                    }
                }
            }
        }
    }
    out
}

fn configs(states: u8, small: bool) -> Vec<Conf> {
    let n = || vs(0, 1, 0);
    let mut lefts: Vec<Vec<Block>> = vec![vec![], vec![bl(&[0], n())], vec![bl(&[1], n())], vec![bl(&[1], vs(1, 1, 0))], vec![bl(&[0], num(1))], vec![bl(&[1], num(1))]];
    if small && states > 1 {
        lefts.remove(4);
    }
    if !small {
        lefts.push(vec![bl(&[1], vs(1, 1, 1))]);
        lefts.push(vec![bl(&[1], E::S(vec![(0, 1), (1, 1)], 0))]);
        lefts.push(vec![bl(&[1], E::S(vec![(0, 2)], 0))]);
        lefts.push(vec![bl(&[0, 1], n())]);
        lefts.push(vec![Block { sym: vec![0], rep: Rep::Inf }]);
        lefts.push(vec![Block { sym: vec![0], rep: Rep::Inf }, bl(&[1], n())]);
    }
    let rights: Vec<Vec<Block>> = lefts.iter().map(|h| {
        let mut r = h.clone();
        r.reverse();
        r
    }).collect();
    let mut out = vec![];
    for l in &lefts {
        for r in &rights {
            for q in 0..states {
                for d in 0..2 {
                    out.push(Conf { left: l.clone(), right: r.clone(), state: q, dir: d });
                }
            }
        }
    }
    out
}

fn rule(a: &Config, b: &Config, p: Proof) -> Rule {
    Rule { init_config: a.clone(), final_config: b.clone(), proof: p }
}

fn t_rules(thorough: bool) {
    let es = envs(3);
    let v = |x: u8, e: E| (x, e);
    let n = || vs(0, 1, 0);
    // single rules: simple and inductive proofs; every substitution for the induction variable
    for two in [false, true] {
        let tms = machines(two, thorough);
        let cfg = configs(if two { 2 } else { 1 }, !thorough);
        let made: Vec<Config> = cfg.iter().map(conf_make).collect();
        let ind = vec![
            Step::T(1), Step::T(2),
            Step::I(vec![v(0, n())]),
            Step::I(vec![v(0, n()), v(1, vs(1, 1, 1))]),
            Step::I(vec![v(0, vs(0, 1, 1))]),
            Step::I(vec![v(0, vs(1, 1, 0))]),
            Step::I(vec![v(0, num(0))]),
            Step::I(vec![]),
            Step::I(vec![v(1, n())]),
            Step::R(0, vec![v(0, n())]),
            Step::R(1, vec![]),
        ];
        let ind = if two && !thorough { [0, 2, 3, 4, 9, 10].iter().map(|i| ind[*i].clone()).collect() } else { ind };
        let simple = vec![Step::T(1), Step::T(2), Step::T(3), Step::I(vec![v(0, n())]), Step::R(0, vec![v(0, n())]), Step::R(0, vec![])];
        let proofs_i = seqs(&ind, 2);
        let proofs_b: Vec<Vec<Step>> = vec![vec![], vec![Step::T(1)], vec![Step::I(vec![v(0, n())])], vec![Step::R(0, vec![])]];
        let simple = if two && !thorough { simple[..5].to_vec() } else { simple };
        let proofs_s = seqs(&simple, 2);
        par(if two { "rules_2state" } else { "rules_1state" }, tms.len(), |m, st| {
            let tt = &tms[m];
            let memo = Truth { memo: Mutex::new(HashMap::new()) };
            let judge = |a: usize, b: usize, how: &dyn Fn() -> String| {
                st.hits.fetch_add(1, Ordering::Relaxed);
                let known = memo.memo.lock().unwrap().get(&(m, a, b)).copied();
                if known == Some(true) {
                    return;
                }
                let r = holds(tt, &cfg[a], &cfg[b], &es);
                st.trans.fetch_add(1, Ordering::Relaxed);
                memo.memo.lock().unwrap().insert((m, a, b), r.is_ok());
                if let Err(env) = r {
                    st.fail("false-rule", format!("{}: accepts {} -> {} ({}), false for {}", table_text(tt), conf_text(&cfg[a]), conf_text(&cfg[b]), how(), env));
                }
            };
            let fresh = || TM::from_str(&table_text(tt)).unwrap();
            let mut set = RuleSet { tm: fresh(), rules: vec![] };
            for a in 0..cfg.len() {
                for p in &proofs_s {
                    for b in 0..cfg.len() {
                        st.states.fetch_add(1, Ordering::Relaxed);
                        set.rules = vec![rule(&made[a], &made[b], Proof::Simple(p.iter().map(mk_step).collect()))];
                        if guard(st, || validate_rule_set(&set).is_ok()) == Some(true) {
                            judge(a, b, &|| proof_text(p));
                        }
                    }
                }
                if !conf_text(&cfg[a]).contains('n') {
                    continue;
                }
                for pb in &proofs_b {
                    for p in &proofs_i {
                        if !pb.is_empty() && p.len() > 1 && !thorough {
                            continue;
                        }
                        for b in 0..cfg.len() {
                            st.states.fetch_add(1, Ordering::Relaxed);
                            set.rules = vec![rule(&made[a], &made[b], Proof::Inductive { proof_base: pb.iter().map(mk_step).collect(), proof_inductive: p.iter().map(mk_step).collect() })];
                            if guard(st, || validate_rule_set(&set).is_ok()) == Some(true) {
                                judge(a, b, &|| format!("base: {}; induction: {}", proof_text(pb), proof_text(p)));
                            }
                        }
                    }
                }
            }
        });
    }
}

// Two rules: a chain rule (proved by induction), then a rule using it with every substitution, counts of all kinds included.
fn t_chains(thorough: bool) {
    let es = envs(3);
    let r = few_recs();
    let counts: Vec<E> = {
        let mut c = vec![num(0), num(1), num(2), vs(0, 1, 0), vs(1, 1, 0), vs(0, 1, 1), vs(1, 1, 1), vs(0, 2, 0), E::S(vec![(0, 1), (1, 1)], 0)];
        c.extend(r.iter().cloned());
        // functions whose bound variable meets the variables of what is substituted
        c.push(E::R(0, Box::new(E::S(vec![(0, 1), (1, 1)], 0)), Box::new(num(2)), Box::new(num(1))));
        c.push(E::R(0, Box::new(E::S(vec![(0, 2)], 0)), Box::new(num(2)), Box::new(num(1))));
        c.push(E::R(1, Box::new(E::S(vec![(0, 1), (1, 1)], 0)), Box::new(vs(0, 1, 0)), Box::new(num(0))));
        c.push(E::R(1, Box::new(E::S(vec![(1, 2)], 0)), Box::new(vs(0, 1, 0)), Box::new(num(0))));
        c
    };
    // sweeping machines: state A turns x into y moving right, state B turns y into x moving left
    let mut items = vec![];
    for x in 0..2u8 {
        for y in 0..2u8 {
            for d in 0..2u8 {
                items.push((x, y, d));
            }
        }
    }
    let per = counts.len();
    par("chains", items.len() * per, |it, st| {
        let (x, y, d) = items[it / per];
        let c0 = &counts[it % per];
        let mut t: Table = vec![vec![None, None], vec![None, None]];
        t[0][x as usize] = Some((y, d, 0));
        t[0][1 - x as usize] = Some((1 - x, 1 - d, 1));
        t[1][y as usize] = Some((x, 1 - d, 1));
        t[1][1 - y as usize] = None;
        let put = |front: Vec<Block>, back: Vec<Block>, q: u8, d: u8| -> Conf {
            if d == 1 { Conf { left: back, right: front, state: q, dir: 1 } } else { Conf { left: front, right: back, state: q, dir: 0 } }
        };
        let chain_a = (put(vec![bl(&[x], vs(0, 1, 0))], vec![], 0, d), put(vec![], vec![bl(&[y], vs(0, 1, 0))], 0, d));
        let chain_made = (conf_make(&chain_a.0), conf_make(&chain_a.1));
        let chain = |rules: &mut Vec<Rule>| {
            for (p, steps) in [(&chain_made, 1u64)] {
                rules.push(rule(&p.0, &p.1, Proof::Inductive { proof_base: vec![], proof_inductive: vec![mk_step(&Step::I(vec![(0, vs(0, 1, 0))])), mk_step(&Step::T(steps))] }));
            }
        };
        let subs: Vec<Vec<(u8, E)>> = counts.iter().map(|c| vec![(0u8, c.clone())]).chain(std::iter::once(vec![])).collect();
        for e1 in &counts {
            // x^e1 before the sweep, y^e2 after it
            for e2 in &counts {
                let a = put(vec![bl(&[x], e1.clone())], vec![bl(&[y], c0.clone())], 0, d);
                let back = if d == 1 { vec![bl(&[y], c0.clone()), bl(&[y], e2.clone())] } else { vec![bl(&[y], e2.clone()), bl(&[y], c0.clone())] };
                let b = put(vec![], back, 0, d);
                let (Some(ca), Some(cb)) = (guard(st, || conf_make(&a)), guard(st, || conf_make(&b))) else { continue };
                let mut truth: Option<Result<(), String>> = None;
                for s in &subs {
                    st.states.fetch_add(1, Ordering::Relaxed);
                    let p = vec![Step::R(0, s.clone())];
                    let mut set = RuleSet { tm: TM::from_str(&table_text(&t)).unwrap(), rules: vec![] };
                    chain(&mut set.rules);
                    set.rules.push(rule(&ca, &cb, Proof::Simple(p.iter().map(mk_step).collect())));
                    if guard(st, || validate_rule_set(&set).is_ok()) == Some(true) {
                        st.hits.fetch_add(1, Ordering::Relaxed);
                        st.trans.fetch_add(1, Ordering::Relaxed);
                        let r = truth.get_or_insert_with(|| holds(&t, &a, &b, &es));
                        if let Err(env) = r {
                            st.fail("false-rule", format!("{}: accepts {} -> {} ({}), false for {}", table_text(&t), conf_text(&a), conf_text(&b), proof_text(&p), env));
                        }
                    }
                }
            }
        }
    });
    // three rules: the second is stated with a count that holds a function and is then instantiated
    let froms: Vec<E> = counts[9..].to_vec();
    let tos: Vec<E> = counts.clone();
    par("instances", froms.len() * tos.len(), |it, st| {
        let f = &froms[it % froms.len()];
        let w = &tos[it / froms.len()];
        // a machine that stands still on its tape: every rule c -> c holds, so what is accepted must be an equality of tapes
        let t: Table = vec![vec![None, None]];
        for sv in 0..3u8 {
            for z in &tos {
                for sv2 in if thorough { 0..3u8 } else { 2..3u8 } {
                    st.states.fetch_add(1, Ordering::Relaxed);
                    let a0 = Conf { left: vec![bl(&[1], f.clone())], right: vec![], state: 0, dir: 0 };
                    let Some(c0) = guard(st, || conf_make(&a0)) else { continue };
                    let mut sub = vec![(sv, w.clone())];
                    if sv2 != sv && sv2 < 2 {
                        sub.push((sv2, tos[3].clone()));
                    }
                    // rule 1: start at the instance, apply rule 0 (c0 -> c0) with the substitution, end at 1^z
                    let want = |env: &Env| -> Option<u64> {
                        let mut inner = *env;
                        for (v, e) in &sub {
                            inner[*v as usize] = eval(e, env)?;
                        }
                        eval(f, &inner)
                    };
                    let b = Conf { left: vec![bl(&[1], z.clone())], right: vec![], state: 0, dir: 0 };
                    let Some(cb) = guard(st, || conf_make(&b)) else { continue };
                    let set = RuleSet { tm: TM::from_str(&table_text(&t)).unwrap(), rules: vec![
                        rule(&c0, &c0, Proof::Simple(vec![])),
                        rule(&cb, &cb, Proof::Simple(vec![mk_step(&Step::R(0, sub.clone()))])),
                    ] };
                    if guard(st, || validate_rule_set(&set).is_ok()) == Some(true) {
                        // 1^z was matched with the instance of rule 0: unless more of the tape remains, the counts agree
                        st.hits.fetch_add(1, Ordering::Relaxed);
                        for env in &es {
                            st.trans.fetch_add(1, Ordering::Relaxed);
                            if let (Some(p), Some(q)) = (want(env), eval(z, env)) {
                                if p > q {
                                    st.fail("false-match", format!("the instance of 1^{} with {} matches 1^{}, although its count is {} and not {} for n={} a={} b={}", text(f), step_text(&Step::R(0, sub.clone())), text(z), p, q, env[0], env[1], env[2]));
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let thorough = args.iter().any(|a| a == "thorough");
    let only = args.iter().skip(1).find(|a| *a != "thorough").cloned();
    let parts: Vec<(&str, fn(bool))> = vec![("values", t_values), ("parse", t_parse), ("tapes", t_tapes), ("rules", t_rules), ("chains", t_chains)];
    for (n, f) in parts {
        if only.as_deref().map_or(true, |o| o == n) {
            let t = std::time::Instant::now();
            f(thorough);
            println!("TIME {} {:.1}", n, t.elapsed().as_secs_f64());
        }
    }
    println!("DONE");
}
