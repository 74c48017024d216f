//! SMT back end: prints path constraints as SMT-LIB 2 and asks z3 / cvc5.
//!
//! Two encodings of the same query:
//!  * Lin : every nonlinear monomial is an opaque integer bounded by its interval and McCormick
//!          products (an over-approximation: `unsat` is definitive, `sat` is re-validated or refined)
//!  * Nia : exact nonlinear integer arithmetic
use crate::big::Big;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(A, Big)>),
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub lin: AtomicU64,
    pub nia: AtomicU64,
    pub cached: AtomicU64,
    pub unknown: AtomicU64,
    pub us: AtomicU64,
    pub discharged: AtomicU64,
    pub by_interval: AtomicU64,
}
pub struct Shared {
    pub stats: Stats,
    pub cache: Mutex<HashMap<(u64, u64), Res2>>,
}
#[derive(Clone)]
pub enum Res2 {
    Sat(Vec<(String, Big)>),
    Unsat,
    Unknown,
}
pub fn dump_dir() -> Option<String> {
    std::env::var("SYMEX_DUMP").ok()
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Z3New,
    Z3Old,
    Cvc5,
}
fn spawn(k: Kind) -> Option<Proc> {
    let mut c = match k {
        Kind::Z3New => {
            let mut c = Command::new("z3-new");
            c.args(["-in", "-smt2"]);
            c
        }
        Kind::Z3Old => {
            let mut c = Command::new("z3");
            c.args(["-in", "-smt2"]);
            c
        }
        Kind::Cvc5 => {
            let mut c = Command::new("cvc5");
            c.args(["--incremental", "--produce-models", "--lang=smt2"]);
            c
        }
    };
    let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let stdin = child.stdin.take()?;
    let out = child.stdout.take()?;
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(out);
        loop {
            let mut l = String::new();
            match r.read_line(&mut l) {
                Ok(0) | Err(_) => break,
                Ok(_) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            }
        }
    });
    Some(Proc { child, stdin, rx })
}

pub struct Solver {
    procs: HashMap<Kind, Proc>,
    pub sh: std::sync::Arc<Shared>,
}

pub struct Query {
    pub text: String,
    pub vars: Vec<(A, String)>,
    pub nonlinear: bool,
}

fn ints(b: &Big) -> String {
    if b.is_neg() {
        format!("(- {})", b.neg())
    } else {
        b.to_string()
    }
}

struct Printer<'a> {
    st: &'a mut Store,
    lin: bool,
    mono: BTreeMap<Vec<A>, String>,
    out: String,
    /// canonical renaming so that structurally equal queries from different paths share a cache key
    names: HashMap<A, String>,
    done_t: HashMap<T, String>,
    done_b: HashMap<B, String>,
    nonlinear: bool,
    vars: Vec<(A, String)>,
}
impl<'a> Printer<'a> {
    fn mono_str(&mut self, m: &Vec<A>) -> String {
        if m.len() == 1 {
            return self.names[&m[0]].clone();
        }
        self.nonlinear = true;
        if !self.lin {
            let v: Vec<String> = m.iter().map(|a| self.names[a].clone()).collect();
            return format!("(* {})", v.join(" "));
        }
        if let Some(s) = self.mono.get(m) {
            return s.clone();
        }
        let n = format!("m{}", self.mono.len());
        self.mono.insert(m.clone(), n.clone());
        let mt = self.st.mk_poly(Poly(vec![(m.clone(), Big::ONE)]));
        let (lo, hi) = self.st.ivl(mt);
        let _ = writeln!(self.out, "(declare-const {} Int)(assert (<= {} {} {}))", n, ints(&lo), n, ints(&hi));
        // McCormick between first atom and the rest
        let x = m[0];
        let rest: Vec<A> = m[1..].to_vec();
        let xt = self.st.atom_term(x);
        let (xl, xu) = self.st.ivl(xt);
        let rt = self.st.mk_poly(Poly(vec![(rest.clone(), Big::ONE)]));
        let (yl, yu) = self.st.ivl(rt);
        let xs = self.names[&x].clone();
        let ys = self.mono_str(&rest);
        for (a, b, ge) in [(&xl, &yl, true), (&xu, &yu, true), (&xu, &yl, false), (&xl, &yu, false)] {
            let _ = writeln!(
                self.out,
                "(assert ({} {} (+ (* {} {}) (* {} {}) {})))",
                if ge { ">=" } else { "<=" },
                n,
                ints(a),
                ys,
                ints(b),
                xs,
                ints(&a.mul(b).neg())
            );
        }
        n
    }
    fn t(&mut self, t: T) -> String {
        if let Some(s) = self.done_t.get(&t) {
            return s.clone();
        }
        let p = self.st.poly(t);
        let mut v = vec![];
        for (m, k) in &p.0 {
            if m.is_empty() {
                v.push(ints(k));
            } else {
                let s = self.mono_str(m);
                v.push(if k.is_one() { s } else { format!("(* {} {})", ints(k), s) });
            }
        }
        let s = match v.len() {
            0 => "0".to_string(),
            1 => v.pop().unwrap(),
            _ => {
                let body = format!("(+ {})", v.join(" "));
                if v.len() > 3 {
                    let n = format!("p{}", self.done_t.len());
                    let _ = writeln!(self.out, "(define-fun {} () Int {})", n, body);
                    n
                } else {
                    body
                }
            }
        };
        self.done_t.insert(t, s.clone());
        s
    }
    fn b(&mut self, b: B) -> String {
        if let Some(s) = self.done_b.get(&b) {
            return s.clone();
        }
        let s = match self.st.bools[b as usize].clone() {
            BN::True => "true".into(),
            BN::False => "false".into(),
            BN::Le(p) => {
                let p = self.st.div_const_cmp(p).unwrap_or(p);
                format!("(<= {} 0)", self.t(p))
            }
            BN::Eq(p) => format!("(= {} 0)", self.t(p)),
            BN::Not(x) => format!("(not {})", self.b(x)),
            BN::And(x, y) => {
                let (x, y) = (self.b(x), self.b(y));
                format!("(and {} {})", x, y)
            }
            BN::Or(x, y) => {
                let (x, y) = (self.b(x), self.b(y));
                format!("(or {} {})", x, y)
            }
        };
        let s = if s.len() > 200 {
            let n = format!("b{}", self.done_b.len());
            let _ = writeln!(self.out, "(define-fun {} () Bool {})", n, s);
            n
        } else {
            s
        };
        self.done_b.insert(b, s.clone());
        s
    }
    fn atom(&mut self, a: A) {
        let idx = self.names.len();
        let at = self.st.atoms[a as usize].clone();
        let tt = self.st.atom_term(a);
        let (lo, hi) = self.st.ivl(tt);
        match &*at {
            Atom::Var { .. } => {
                let n = format!("v{}", idx);
                let _ = writeln!(self.out, "(declare-const {} Int)(assert (<= {} {} {}))", n, ints(&lo), n, ints(&hi));
                self.vars.push((a, n.clone()));
                self.names.insert(a, n);
            }
            Atom::Uf { f, args, .. } => {
                let n = format!("u{}", idx);
                let _ = writeln!(self.out, "(declare-const {} Int)(assert (<= {} {} {}))", n, ints(&lo), n, ints(&hi));
                self.vars.push((a, n.clone()));
                self.names.insert(a, n.clone());
                self.uf_axioms(f, args, &n);
            }
            Atom::Div(p, q) => {
                let n = format!("d{}", idx);
                let _ = writeln!(self.out, "(declare-const {} Int)(assert (<= {} {} {}))", n, ints(&lo), n, ints(&hi));
                self.names.insert(a, n.clone());
                // q*n <= p < q*n + q  (when q > 0)
                let qn = self.st.mul(*q, tt);
                let r = self.st.sub(*p, qn);
                let rs = self.t(r);
                let qs = self.t(*q);
                let body = format!("(and (<= 0 {r}) (< {r} {q}))", r = rs, q = qs);
                if self.st.is_const(*q).is_some() {
                    let _ = writeln!(self.out, "(assert {})", body);
                } else {
                    let _ = writeln!(self.out, "(assert (=> (>= {} 1) {}))", qs, body);
                    // consequences that help the linear encoding
                    let (one, hi1) = (Big::ONE, hi.add(&Big::ONE));
                    if self.st.ivl(*q).0 >= one {
                        if lo >= one {
                            let x = self.st.scale(*q, &lo);
                            let x = self.st.sub(x, *p);
                            let s = self.t(x);
                            let _ = writeln!(self.out, "(assert (<= {} 0))", s);
                        }
                        let x = self.st.scale(*q, &hi1);
                        let x = self.st.sub(*p, x);
                        let s = self.t(x);
                        let _ = writeln!(self.out, "(assert (< {} 0))", s);
                    }
                    let (plo, _) = self.st.ivl(*p);
                    if !plo.is_neg() {
                        let ps = self.t(*p);
                        let _ = writeln!(self.out, "(assert (=> (< {} {}) (= {} 0)))(assert (=> (and (>= {} 1) (>= {} {})) (>= {} 1)))", ps, qs, n, qs, ps, qs, n);
                        let _ = writeln!(self.out, "(assert (=> (>= {} 1) (<= {} {})))", qs, n, ps);
                    }
                }
            }
            Atom::Ite(b, x, y) => {
                let n = format!("i{}", idx);
                let (b, x, y) = (self.b(*b), self.t(*x), self.t(*y));
                let _ = writeln!(self.out, "(define-fun {} () Int (ite {} {} {}))", n, b, x, y);
                self.names.insert(a, n);
            }
        }
    }
    fn uf_axioms(&mut self, f: &Uf, args: &[T], n: &str) {
        match f {
            Uf::BvAnd => {
                let (a, b) = (self.t(args[0]), self.t(args[1]));
                let _ = writeln!(self.out, "(assert (and (<= 0 {n}) (<= {n} {a}) (<= {n} {b})))", n = n, a = a, b = b);
            }
            Uf::BvOr => {
                let (a, b) = (self.t(args[0]), self.t(args[1]));
                let _ = writeln!(self.out, "(assert (and (>= {n} {a}) (>= {n} {b}) (<= {n} (+ {a} {b}))))", n = n, a = a, b = b);
            }
            Uf::BvXor => {
                let (a, b) = (self.t(args[0]), self.t(args[1]));
                let _ = writeln!(self.out, "(assert (and (>= {n} 0) (<= {n} (+ {a} {b}))))", n = n, a = a, b = b);
            }
            Uf::DecPow => {
                let one = Big::S(1_000_000_000_000_000_000);
                let (x, e) = (args[0], args[1]);
                let (xs, es) = (self.t(x), self.t(e));
                let ones = ints(&one);
                let _ = writeln!(self.out, "(assert (=> (= {} 0) (= {} {})))", es, n, ones);
                let _ = writeln!(self.out, "(assert (=> (= {} 1) (= {} {})))", es, n, xs);
                let _ = writeln!(self.out, "(assert (=> (and (>= {x} {o}) (>= {e} 1)) (>= {n} {x})))", x = xs, o = ones, e = es, n = n);
                let _ = writeln!(self.out, "(assert (=> (>= {x} {o}) (>= {n} {o})))", x = xs, o = ones, n = n);
                let _ = writeln!(self.out, "(assert (=> (<= {x} {o}) (<= {n} {o})))", x = xs, o = ones, n = n);
                if !self.lin {
                    let _ = writeln!(self.out, "(assert (=> (= {e} 2) (= {n} (div (* {x} {x}) {o}))))", e = es, n = n, x = xs, o = ones);
                }
            }
            Uf::Isqrt => {
                let x = self.t(args[0]);
                if !self.lin {
                    let _ = writeln!(self.out, "(assert (and (<= (* {n} {n}) {x}) (< {x} (* (+ {n} 1) (+ {n} 1)))))", n = n, x = x);
                }
            }
            Uf::Hash(_) => {}
        }
    }
}

pub fn build(st: &mut Store, cs: &[B], lin: bool, extra: &dyn Fn(&HashMap<A, String>) -> String) -> Query {
    let (mut mt, mut mb) = st.marks();
    let mut atoms = vec![];
    for c in cs {
        st.atoms_of_b(*c, &mut mt, &mut mb, &mut atoms);
    }
    let mut p = Printer { st, lin, mono: BTreeMap::new(), out: String::new(), names: HashMap::new(), done_t: HashMap::new(), done_b: HashMap::new(), nonlinear: false, vars: vec![] };
    for a in &atoms {
        p.atom(*a);
    }
    for c in cs {
        let s = p.b(*c);
        let _ = writeln!(p.out, "(assert {})", s);
    }
    let e = extra(&p.names);
    p.out.push_str(&e);
    let (text, vars, nonlinear) = (p.out, p.vars, p.nonlinear);
    Query { text, vars, nonlinear }
}

fn hash2(s: &str) -> (u64, u64) {
    let mut a = 0xcbf29ce484222325u64;
    let mut b = 0x9E3779B97F4A7C15u64;
    for c in s.bytes() {
        a = (a ^ c as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(5) ^ c as u64).wrapping_mul(0x2545F4914F6CDD1D);
    }
    (a, b)
}

impl Solver {
    pub fn new(sh: std::sync::Arc<Shared>) -> Solver {
        Solver { procs: HashMap::new(), sh }
    }
    fn send(&mut self, k: Kind, text: &str, vars: &[(A, String)], timeout_ms: u64) -> bool {
        if !self.procs.contains_key(&k) {
            match spawn(k) {
                Some(p) => {
                    self.procs.insert(k, p);
                }
                None => return false,
            }
        }
        let p = self.procs.get_mut(&k).unwrap();
        let mut s = String::with_capacity(text.len() + 200);
        s.push_str("(reset)\n");
        match k {
            Kind::Cvc5 => {
                let _ = writeln!(s, "(set-option :tlimit-per {})(set-option :produce-models true)(set-logic QF_NIA)", timeout_ms);
            }
            _ => {
                let _ = writeln!(s, "(set-option :timeout {})", timeout_ms);
            }
        }
        s.push_str(text);
        s.push_str("(check-sat)\n");
        if !vars.is_empty() {
            s.push_str("(get-value (");
            for v in vars {
                s.push_str(&v.1);
                s.push(' ');
            }
            s.push_str("))\n");
        }
        s.push_str("(echo \"<<done>>\")\n");
        if p.stdin.write_all(s.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.procs.remove(&k);
            return false;
        }
        true
    }
    /// poll one solver; None = not finished yet
    fn poll(&mut self, k: Kind, buf: &mut String, wait: Duration) -> Option<bool> {
        let p = match self.procs.get_mut(&k) {
            Some(p) => p,
            None => return Some(false),
        };
        let end = Instant::now() + wait;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.contains("<<done>>") {
                        return Some(true);
                    }
                    buf.push_str(&l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(RecvTimeoutError::Disconnected) => {
                    self.procs.remove(&k);
                    return Some(false);
                }
            }
        }
    }
    fn parse(buf: &str, vars: &[(A, String)]) -> Res {
        let mut it = buf.splitn(2, '\n');
        let first = it.next().unwrap_or("").trim();
        let rest = it.next().unwrap_or("");
        match first {
            "unsat" => Res::Unsat,
            "sat" => {
                // ((v0 5) (v1 (- 3)))
                let toks: Vec<String> = rest.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
                let mut vals: HashMap<String, Big> = HashMap::new();
                let mut i = 0;
                while i + 1 < toks.len() {
                    if toks[i] == "(" && toks[i + 1] != "(" && toks[i + 1] != "-" {
                        let name = toks[i + 1].clone();
                        if i + 2 < toks.len() {
                            if toks[i + 2] == "(" && i + 4 < toks.len() && toks[i + 3] == "-" {
                                if let Some(b) = Big::parse(&toks[i + 4]) {
                                    vals.insert(name, b.neg());
                                }
                                i += 6;
                                continue;
                            } else if let Some(b) = Big::parse(&toks[i + 2]) {
                                vals.insert(name, b);
                                i += 3;
                                continue;
                            }
                        }
                    }
                    i += 1;
                }
                let mut r = vec![];
                for (a, n) in vars {
                    match vals.get(n) {
                        Some(v) => r.push((*a, v.clone())),
                        None => return Res::Unknown,
                    }
                }
                Res::Sat(r)
            }
            _ => Res::Unknown,
        }
    }
    /// race the given solvers on a query
    pub fn run(&mut self, q: &Query, kinds: &[Kind], timeout_ms: u64) -> Res {
        let key = hash2(&q.text);
        if let Some(r) = self.sh.cache.lock().unwrap().get(&key) {
            self.sh.stats.cached.fetch_add(1, Relaxed);
            return match r {
                Res2::Unsat => Res::Unsat,
                Res2::Unknown => Res::Unknown,
                Res2::Sat(m) => {
                    let mm: HashMap<&String, &Big> = m.iter().map(|x| (&x.0, &x.1)).collect();
                    Res::Sat(q.vars.iter().filter_map(|(a, n)| mm.get(n).map(|v| (*a, (*v).clone()))).collect())
                }
            };
        }
        let t0 = Instant::now();
        if let Some(d) = dump_dir() {
            let _ = std::fs::write(format!("{}/q{:016x}.smt2", d, key.0), format!("{}(check-sat)\n", q.text));
        }
        let mut live: Vec<(Kind, String)> = vec![];
        for k in kinds {
            if self.send(*k, &q.text, &q.vars, timeout_ms) {
                live.push((*k, String::new()));
            }
        }
        let hard = t0 + Duration::from_millis(timeout_ms + 1500);
        let mut res = Res::Unknown;
        let single = live.len() == 1;
        'outer: while !live.is_empty() {
            let mut i = 0;
            while i < live.len() {
                let wait = if single { hard.saturating_duration_since(Instant::now()) } else { Duration::from_millis(2) };
                let (k, buf) = &mut live[i];
                let k = *k;
                match self.poll(k, buf, wait) {
                    Some(true) => {
                        let r = Self::parse(&live[i].1, &q.vars);
                        live.remove(i);
                        if r != Res::Unknown {
                            res = r;
                            break 'outer;
                        }
                    }
                    Some(false) => {
                        live.remove(i);
                    }
                    None => i += 1,
                }
            }
            if Instant::now() >= hard {
                break;
            }
        }
        // anything still running is killed (a fresh process is spawned for the next query)
        for (k, _) in live {
            self.procs.remove(&k);
        }
        let us = t0.elapsed().as_micros() as u64;
        self.sh.stats.us.fetch_add(us, Relaxed);
        if us > 3_000_000 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("slow query {} ms -> {:?} ({:016x})", us / 1000, matches!(res, Res::Unknown), key.0);
        }
        if res == Res::Unknown {
            self.sh.stats.unknown.fetch_add(1, Relaxed);
        }
        let r2 = match &res {
            Res::Unsat => Res2::Unsat,
            Res::Unknown => Res2::Unknown,
            Res::Sat(m) => {
                let nm: HashMap<A, &String> = q.vars.iter().map(|(a, n)| (*a, n)).collect();
                Res2::Sat(m.iter().map(|(a, v)| (nm[a].clone(), v.clone())).collect())
            }
        };
        if res != Res::Unknown || kinds.len() == 1 {
            self.sh.cache.lock().unwrap().insert(key, r2);
        }
        res
    }
}

/// constraints of `pc` connected (through shared atoms) to `goal`
pub fn slice(supp: &[(B, Vec<A>)], goal: &[A]) -> Vec<B> {
    let mut set: HashSet<A> = goal.iter().copied().collect();
    let mut used = vec![false; supp.len()];
    loop {
        let mut ch = false;
        for (i, (_, s)) in supp.iter().enumerate() {
            if !used[i] && s.iter().any(|a| set.contains(a)) {
                used[i] = true;
                for a in s {
                    ch |= set.insert(*a);
                }
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    supp.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, x)| x.0).collect()
}
