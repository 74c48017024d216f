//! Symbolic terms: hash-consed polynomials over integer atoms, and boolean formulas over them.
//! All machine integers are represented by the mathematical integer of their unsigned value;
//! wrap-around is made explicit (case split or div/mod) where the instruction can wrap.
use crate::big::Big;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32; // integer term (polynomial)
pub type B = u32; // boolean term
pub type A = u32; // atom

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var { name: String, lo: Big, hi: Big },
    /// floor(p / q), q > 0 whenever it is used
    Div(T, T),
    Ite(B, T, T),
    /// function symbol with known concrete semantics (see eval) but only bounded/axiomatised for the solver
    Uf { f: Uf, args: Vec<T>, lo: Big, hi: Big },
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Uf {
    BvAnd,
    BvOr,
    BvXor,
    /// cosmwasm Decimal::checked_pow(base atomics, exp) value (18 decimals)
    DecPow,
    /// floor square root
    Isqrt,
    /// ideal hash of a token list; identified by index in the path's hash table
    Hash(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Vec<(Vec<A>, Big)>);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BN {
    True,
    False,
    Le(T), // p <= 0
    Eq(T), // p = 0
    Not(B),
    And(B, B),
    Or(B, B),
}

pub const TRUE: B = 0;
pub const FALSE: B = 1;

pub struct Store {
    polys: Vec<Rc<Poly>>,
    poly_map: HashMap<Rc<Poly>, T>,
    pub atoms: Vec<Rc<Atom>>,
    atom_map: HashMap<Rc<Atom>, A>,
    pub bools: Vec<BN>,
    bool_map: HashMap<BN, B>,
    // path-dependent knowledge
    known: HashMap<B, bool>,
    bounds: HashMap<T, (Option<Big>, Option<Big>)>,
    cache: HashMap<T, (Big, Big)>,
    acache: HashMap<A, (Big, Big)>,
}

pub type Iv = (Big, Big);
pub fn iv_mul(a: &Iv, b: &Iv) -> Iv {
    let c = [a.0.mul(&b.0), a.0.mul(&b.1), a.1.mul(&b.0), a.1.mul(&b.1)];
    (c.iter().min().unwrap().clone(), c.iter().max().unwrap().clone())
}

impl Store {
    pub fn new() -> Store {
        let mut s = Store {
            polys: vec![],
            poly_map: HashMap::new(),
            atoms: vec![],
            atom_map: HashMap::new(),
            bools: vec![],
            bool_map: HashMap::new(),
            known: HashMap::new(),
            bounds: HashMap::new(),
            cache: HashMap::new(),
            acache: HashMap::new(),
        };
        s.mk_bool(BN::True);
        s.mk_bool(BN::False);
        s
    }
    fn mk_bool(&mut self, b: BN) -> B {
        if let Some(i) = self.bool_map.get(&b) {
            return *i;
        }
        let i = self.bools.len() as B;
        self.bools.push(b.clone());
        self.bool_map.insert(b, i);
        i
    }
    pub fn mk_poly(&mut self, p: Poly) -> T {
        if let Some(i) = self.poly_map.get(&p) {
            return *i;
        }
        let i = self.polys.len() as T;
        let r = Rc::new(p);
        self.polys.push(r.clone());
        self.poly_map.insert(r, i);
        i
    }
    pub fn mk_atom(&mut self, a: Atom) -> A {
        if let Some(i) = self.atom_map.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as A;
        let r = Rc::new(a);
        self.atoms.push(r.clone());
        self.atom_map.insert(r, i);
        i
    }
    pub fn poly(&self, t: T) -> Rc<Poly> {
        self.polys[t as usize].clone()
    }
    pub fn konst(&mut self, c: Big) -> T {
        self.mk_poly(Poly(if c.is_zero() { vec![] } else { vec![(vec![], c)] }))
    }
    pub fn ki(&mut self, c: i128) -> T {
        self.konst(Big::S(c))
    }
    pub fn is_const(&self, t: T) -> Option<Big> {
        let p = &self.polys[t as usize].0;
        match p.len() {
            0 => Some(Big::ZERO),
            1 if p[0].0.is_empty() => Some(p[0].1.clone()),
            _ => None,
        }
    }
    pub fn atom_term(&mut self, a: A) -> T {
        self.mk_poly(Poly(vec![(vec![a], Big::ONE)]))
    }
    pub fn as_atom(&self, t: T) -> Option<A> {
        let p = &self.polys[t as usize].0;
        if p.len() == 1 && p[0].0.len() == 1 && p[0].1.is_one() {
            Some(p[0].0[0])
        } else {
            None
        }
    }
    pub fn var(&mut self, name: &str, lo: Big, hi: Big) -> T {
        let a = self.mk_atom(Atom::Var { name: name.to_string(), lo, hi });
        self.atom_term(a)
    }
    fn norm(mut v: Vec<(Vec<A>, Big)>) -> Poly {
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let mut r: Vec<(Vec<A>, Big)> = Vec::with_capacity(v.len());
        for (m, c) in v {
            if let Some(l) = r.last_mut() {
                if l.0 == m {
                    l.1 = l.1.add(&c);
                    continue;
                }
            }
            r.push((m, c));
        }
        r.retain(|x| !x.1.is_zero());
        Poly(r)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let mut v = self.polys[a as usize].0.clone();
        v.extend(self.polys[b as usize].0.iter().cloned());
        self.mk_poly(Self::norm(v))
    }
    pub fn scale(&mut self, a: T, k: &Big) -> T {
        if k.is_zero() {
            return self.ki(0);
        }
        let v = self.polys[a as usize].0.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect();
        self.mk_poly(Poly(v))
    }
    pub fn neg(&mut self, a: T) -> T {
        self.scale(a, &Big::S(-1))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn addk(&mut self, a: T, k: i128) -> T {
        let k = self.ki(k);
        self.add(a, k)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.is_const(a) {
            return self.scale(b, &k);
        }
        if let Some(k) = self.is_const(b) {
            return self.scale(a, &k);
        }
        let pa = self.poly(a);
        let pb = self.poly(b);
        let mut v = Vec::with_capacity(pa.0.len() * pb.0.len());
        for (m, c) in &pa.0 {
            for (n, d) in &pb.0 {
                let mut mm = m.clone();
                mm.extend(n);
                mm.sort();
                v.push((mm, c.mul(d)));
            }
        }
        self.mk_poly(Self::norm(v))
    }
    /// floor(p/q); caller guarantees q > 0 on this path
    pub fn div(&mut self, p: T, q: T) -> T {
        if let Some(c) = self.is_const(q) {
            assert!(!c.is_zero() && !c.is_neg());
            if c.is_one() {
                return p;
            }
            if let Some(k) = self.is_const(p) {
                return self.konst(k.div(&c));
            }
            let (lo, hi) = self.ivl(p);
            let (dl, dh) = (lo.div(&c), hi.div(&c));
            if dl == dh {
                return self.konst(dl);
            }
            // exact part
            let pp = self.poly(p);
            let mut ex = vec![];
            let mut rest = vec![];
            for (m, k) in &pp.0 {
                if m.is_empty() {
                    let (kq, kr) = k.div_mod(&c);
                    if !kq.is_zero() {
                        ex.push((m.clone(), kq));
                    }
                    if !kr.is_zero() {
                        rest.push((m.clone(), kr));
                    }
                } else {
                    let (kq, kr) = if k.is_neg() {
                        let (a, b) = k.neg().div_mod(&c);
                        (a.neg(), b)
                    } else {
                        k.div_mod(&c)
                    };
                    if kr.is_zero() {
                        ex.push((m.clone(), kq));
                    } else {
                        rest.push((m.clone(), k.clone()));
                    }
                }
            }
            if !ex.is_empty() {
                let e = self.mk_poly(Self::norm(ex));
                let r = self.mk_poly(Self::norm(rest));
                let d = self.div(r, q);
                return self.add(e, d);
            }
            // common factor
            let mut g = c.clone();
            for (_, k) in &pp.0 {
                g = g.gcd(k);
            }
            if !g.is_one() {
                let np = Poly(pp.0.iter().map(|(m, k)| (m.clone(), if k.is_neg() { k.neg().div(&g).neg() } else { k.div(&g) })).collect());
                let np = self.mk_poly(np);
                let nq = self.konst(c.div(&g));
                return self.div(np, nq);
            }
            // nested division by constants
            if let Some(a) = self.as_atom(p) {
                if let Atom::Div(p2, q2) = &*self.atoms[a as usize].clone() {
                    if let Some(c2) = self.is_const(*q2) {
                        let nq = self.konst(c.mul(&c2));
                        return self.div(*p2, nq);
                    }
                }
                if let Atom::Ite(b, x, y) = &*self.atoms[a as usize].clone() {
                    if self.is_const(*x).is_some() || self.is_const(*y).is_some() {
                        let dx = self.div(*x, q);
                        let dy = self.div(*y, q);
                        return self.ite(*b, dx, dy);
                    }
                }
            }
        } else {
            if self.is_const(p).map_or(false, |k| k.is_zero()) {
                return p;
            }
            // exact division by a single monomial
            let pq = self.poly(q);
            if pq.0.len() == 1 {
                let (qm, qk) = pq.0[0].clone();
                let pp = self.poly(p);
                let mut out = vec![];
                let mut ok = true;
                for (m, k) in &pp.0 {
                    let mut mm = m.clone();
                    for a in &qm {
                        match mm.iter().position(|x| x == a) {
                            Some(i) => {
                                mm.remove(i);
                            }
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if !ok || !k.abs().rem(&qk).is_zero() {
                        ok = false;
                        break;
                    }
                    let kk = k.abs().div(&qk);
                    out.push((mm, if k.is_neg() { kk.neg() } else { kk }));
                }
                if ok {
                    return self.mk_poly(Self::norm(out));
                }
            }
            if p == q {
                return self.ki(1);
            }
            let (lo, hi) = self.ivl(p);
            let (ql, _) = self.ivl(q);
            if !lo.is_neg() && ql > hi {
                return self.ki(0);
            }
        }
        let a = self.mk_atom(Atom::Div(p, q));
        self.atom_term(a)
    }
    pub fn modulo(&mut self, p: T, q: T) -> T {
        if let Some(c) = self.is_const(q) {
            let (lo, hi) = self.ivl(p);
            if !lo.is_neg() && hi < c {
                return p;
            }
        }
        let d = self.div(p, q);
        let m = self.mul(d, q);
        self.sub(p, m)
    }
    pub fn ite(&mut self, b: B, x: T, y: T) -> T {
        if x == y {
            return x;
        }
        match self.tri(b) {
            Some(true) => return x,
            Some(false) => return y,
            None => {}
        }
        if let BN::Not(nb) = self.bools[b as usize] {
            return self.ite(nb, y, x);
        }
        let a = self.mk_atom(Atom::Ite(b, x, y));
        self.atom_term(a)
    }
    pub fn b2i(&mut self, b: B) -> T {
        let (o, z) = (self.ki(1), self.ki(0));
        self.ite(b, o, z)
    }

    // ---------- booleans
    pub fn bconst(&self, b: bool) -> B {
        if b {
            TRUE
        } else {
            FALSE
        }
    }
    /// if p is k*Ite(b,c1,c2)+c with constant branches, evaluate pred on both
    fn ite_cases(&mut self, p: T, f: &dyn Fn(&Big) -> bool) -> Option<B> {
        let pp = self.poly(p);
        let mut c = Big::ZERO;
        let mut at = None;
        for (m, k) in &pp.0 {
            if m.is_empty() {
                c = k.clone();
            } else if m.len() == 1 && at.is_none() {
                at = Some((m[0], k.clone()));
            } else {
                return None;
            }
        }
        let (a, k) = at?;
        let at = self.atoms[a as usize].clone();
        if let Atom::Ite(b, x, y) = &*at {
            let ex = self.const_cases(*x, &k, &c, f)?;
            let ey = self.const_cases(*y, &k, &c, f)?;
            let nb = self.not(*b);
            let l = self.and(*b, ex);
            let r = self.and(nb, ey);
            return Some(self.or(l, r));
        }
        None
    }
    fn const_cases(&mut self, t: T, k: &Big, c: &Big, f: &dyn Fn(&Big) -> bool) -> Option<B> {
        if let Some(v) = self.is_const(t) {
            return Some(self.bconst(f(&v.mul(k).add(c))));
        }
        let s = self.scale(t, k);
        let ck = self.konst(c.clone());
        let s = self.add(s, ck);
        self.ite_cases(s, f)
    }
    /// p <= 0
    fn mk_le0(&mut self, p: T) -> B {
        let (lo, hi) = self.ivl_static(p);
        if hi <= Big::ZERO {
            return TRUE;
        }
        if lo > Big::ZERO {
            return FALSE;
        }
        if let Some(b) = self.ite_cases(p, &|v| *v <= Big::ZERO) {
            return b;
        }
        // normalise by gcd of non-constant coefs
        let pp = self.poly(p);
        let mut g = Big::ZERO;
        let mut c = Big::ZERO;
        for (m, k) in &pp.0 {
            if m.is_empty() {
                c = k.clone()
            } else {
                g = g.gcd(k)
            }
        }
        let p = if !g.is_one() {
            // g*h + c <= 0  <=>  h <= floor(-c/g)  <=> h - floor(-c/g) <= 0
            let mut v: Vec<(Vec<A>, Big)> = vec![];
            for (m, k) in &pp.0 {
                if !m.is_empty() {
                    v.push((m.clone(), if k.is_neg() { k.neg().div(&g).neg() } else { k.div(&g) }));
                }
            }
            let nc = c.neg().div(&g).neg();
            if !nc.is_zero() {
                v.push((vec![], nc));
            }
            self.mk_poly(Self::norm(v))
        } else {
            p
        };
        self.mk_bool(BN::Le(p))
    }
    /// an equivalent `q <= 0` of `p <= 0`: `floor(n/d) + c <= 0` and `c - floor(n/d) <= 0` for a constant `c` and `d >= 1`, without the division
    pub fn div_const_cmp(&mut self, p: T) -> Option<T> {
        let pp = self.poly(p);
        let mut at = None;
        let mut c = Big::ZERO;
        for (m, k) in &pp.0 {
            if m.is_empty() {
                c = k.clone()
            } else if m.len() == 1 && at.is_none() && (k.is_one() || k.neg().is_one()) {
                at = Some((m[0], k.is_one()))
            } else {
                return None;
            }
        }
        let (a, pos) = at?;
        let (n, d) = match &*self.atoms[a as usize].clone() {
            Atom::Div(n, d) => (*n, *d),
            _ => return None,
        };
        if self.is_const(d).is_some() || self.ivl(d).0 < Big::ONE {
            return None;
        }
        let q = if pos {
            // floor(n/d) <= -c  <=>  n < (1-c)*d
            let cd = self.scale(d, &Big::ONE.sub(&c));
            let x = self.sub(n, cd);
            self.addk(x, 1)
        } else {
            // c <= floor(n/d)  <=>  c*d <= n
            let cd = self.scale(d, &c);
            self.sub(cd, n)
        };
        Some(q)
    }
    pub fn le(&mut self, a: T, b: T) -> B {
        let p = self.sub(a, b);
        self.mk_le0(p)
    }
    pub fn lt(&mut self, a: T, b: T) -> B {
        let p = self.sub(a, b);
        let p = self.addk(p, 1);
        self.mk_le0(p)
    }
    pub fn eq(&mut self, a: T, b: T) -> B {
        let mut p = self.sub(a, b);
        let (lo, hi) = self.ivl_static(p);
        if lo.is_zero() && hi.is_zero() {
            return TRUE;
        }
        if lo > Big::ZERO || hi < Big::ZERO {
            return FALSE;
        }
        if let Some(b) = self.ite_cases(p, &|v| v.is_zero()) {
            return b;
        }
        let pp = self.poly(p);
        let mut g = Big::ZERO;
        let mut c = Big::ZERO;
        for (m, k) in &pp.0 {
            if m.is_empty() {
                c = k.clone()
            } else {
                g = g.gcd(k)
            }
        }
        if !c.abs().rem(&g).is_zero() {
            return FALSE;
        }
        if !g.is_one() {
            let v = pp.0.iter().map(|(m, k)| (m.clone(), if k.is_neg() { k.neg().div(&g).neg() } else { k.div(&g) })).collect();
            p = self.mk_poly(Poly(v));
        }
        // sign normalise: first non-constant coef positive
        let pp = self.poly(p);
        if let Some((_, k)) = pp.0.iter().find(|x| !x.0.is_empty()) {
            if k.is_neg() {
                p = self.neg(p);
            }
        }
        self.mk_bool(BN::Eq(p))
    }
    pub fn not(&mut self, b: B) -> B {
        match self.bools[b as usize].clone() {
            BN::True => FALSE,
            BN::False => TRUE,
            BN::Not(x) => x,
            BN::Le(p) => {
                // p > 0 <=> 1 - p <= 0
                let n = self.neg(p);
                let n = self.addk(n, 1);
                self.mk_le0(n)
            }
            _ => self.mk_bool(BN::Not(b)),
        }
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == b || b == TRUE {
            return a;
        }
        if a == TRUE {
            return b;
        }
        if a == FALSE || b == FALSE {
            return FALSE;
        }
        if self.not(a) == b {
            return FALSE;
        }
        self.mk_bool(BN::And(a.min(b), a.max(b)))
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        if a == b || b == FALSE {
            return a;
        }
        if a == FALSE {
            return b;
        }
        if a == TRUE || b == TRUE {
            return TRUE;
        }
        if self.not(a) == b {
            return TRUE;
        }
        self.mk_bool(BN::Or(a.min(b), a.max(b)))
    }
    pub fn bite(&mut self, c: B, x: B, y: B) -> B {
        if c == TRUE {
            return x;
        }
        if c == FALSE {
            return y;
        }
        let l = self.and(c, x);
        let n = self.not(c);
        let r = self.and(n, y);
        self.or(l, r)
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let na = self.not(a);
        let nb = self.not(b);
        let l = self.and(a, nb);
        let r = self.and(na, b);
        self.or(l, r)
    }

    // ---------- intervals
    fn atom_ivl(&mut self, a: A) -> Iv {
        if let Some(x) = self.acache.get(&a) {
            return x.clone();
        }
        let at = self.atoms[a as usize].clone();
        let mut iv = match &*at {
            Atom::Var { lo, hi, .. } => (lo.clone(), hi.clone()),
            Atom::Uf { lo, hi, .. } => (lo.clone(), hi.clone()),
            Atom::Ite(b, x, y) => match self.known.get(b).copied() {
                Some(true) => self.ivl(*x),
                Some(false) => self.ivl(*y),
                None => {
                    let i = self.ivl(*x);
                    let j = self.ivl(*y);
                    (i.0.min(j.0), i.1.max(j.1))
                }
            },
            Atom::Div(p, q) => {
                let i = self.ivl(*p);
                let mut j = self.ivl(*q);
                if j.0 < Big::ONE {
                    j.0 = Big::ONE;
                }
                if j.1 < Big::ONE {
                    j.1 = Big::ONE;
                }
                (if i.0.is_neg() { i.0.div(&j.0) } else { i.0.div(&j.1) }, if i.1.is_neg() { i.1.div(&j.1) } else { i.1.div(&j.0) })
            }
        };
        if let Some(&t) = self.poly_map.get(&Poly(vec![(vec![a], Big::ONE)])) {
            if let Some((l, h)) = self.bounds.get(&t) {
                if let Some(l) = l {
                    if *l > iv.0 {
                        iv.0 = l.clone()
                    }
                }
                if let Some(h) = h {
                    if *h < iv.1 {
                        iv.1 = h.clone()
                    }
                }
            }
        }
        self.acache.insert(a, iv.clone());
        iv
    }
    fn split_const(&self, p: &Poly) -> (Vec<(Vec<A>, Big)>, Big) {
        let mut c = Big::ZERO;
        let mut h = vec![];
        for (m, k) in &p.0 {
            if m.is_empty() {
                c = k.clone()
            } else {
                h.push((m.clone(), k.clone()))
            }
        }
        (h, c)
    }
    pub fn ivl(&mut self, t: T) -> Iv {
        if let Some(x) = self.cache.get(&t) {
            return x.clone();
        }
        let p = self.poly(t);
        let mut r: Iv = (Big::ZERO, Big::ZERO);
        for (m, k) in &p.0 {
            let mut iv: Iv = (Big::ONE, Big::ONE);
            for a in m {
                let ai = self.atom_ivl(*a);
                iv = iv_mul(&iv, &ai);
            }
            if m.len() >= 2 {
                if let Some(&mt) = self.poly_map.get(&Poly(vec![(m.clone(), Big::ONE)])) {
                    if let Some((l, h)) = self.bounds.get(&mt) {
                        if let Some(l) = l {
                            if *l > iv.0 {
                                iv.0 = l.clone()
                            }
                        }
                        if let Some(h) = h {
                            if *h < iv.1 {
                                iv.1 = h.clone()
                            }
                        }
                    }
                }
            }
            iv = iv_mul(&iv, &(k.clone(), k.clone()));
            r = (r.0.add(&iv.0), r.1.add(&iv.1));
        }
        if p.0.len() > 1 && !self.bounds.is_empty() {
            // recorded bounds on the homogeneous part (sign-normalised)
            let (mut h, c) = self.split_const(&p);
            let flip = h[0].1.is_neg();
            if flip {
                for x in h.iter_mut() {
                    x.1 = x.1.neg()
                }
            }
            let mut g = Big::ZERO;
            for x in &h {
                g = g.gcd(&x.1)
            }
            let mut cands = vec![];
            if !g.is_one() {
                let prim = h.iter().map(|x| (x.0.clone(), if x.1.is_neg() { x.1.neg().div(&g).neg() } else { x.1.div(&g) })).collect();
                cands.push((prim, g));
            }
            cands.push((h, Big::ONE));
            for (h, g) in cands {
                let b = self.poly_map.get(&Poly(h)).and_then(|ht| self.bounds.get(ht)).cloned();
                if let Some((l, u)) = b {
                    let (l, u) = if flip { (u.map(|x| x.neg()), l.map(|x| x.neg())) } else { (l, u) };
                    if let Some(l) = l {
                        let v = l.mul(&g).add(&c);
                        if v > r.0 {
                            r.0 = v
                        }
                    }
                    if let Some(u) = u {
                        let v = u.mul(&g).add(&c);
                        if v < r.1 {
                            r.1 = v
                        }
                    }
                }
            }
        }
        self.cache.insert(t, r.clone());
        r
    }
    /// interval used for building formulas; the same as ivl (path-dependent facts are already asserted
    /// on this path, so simplifying with them is sound for this path)
    fn ivl_static(&mut self, t: T) -> Iv {
        self.ivl(t)
    }
    pub fn tri(&mut self, b: B) -> Option<bool> {
        if let Some(v) = self.known.get(&b) {
            return Some(*v);
        }
        match self.bools[b as usize].clone() {
            BN::True => Some(true),
            BN::False => Some(false),
            BN::Le(p) => {
                let (lo, hi) = self.ivl(p);
                if hi <= Big::ZERO {
                    Some(true)
                } else if lo > Big::ZERO {
                    Some(false)
                } else {
                    None
                }
            }
            BN::Eq(p) => {
                let (lo, hi) = self.ivl(p);
                if lo > Big::ZERO || hi < Big::ZERO {
                    Some(false)
                } else if lo.is_zero() && hi.is_zero() {
                    Some(true)
                } else {
                    None
                }
            }
            BN::Not(x) => self.tri(x).map(|v| !v),
            BN::And(x, y) => match (self.tri(x), self.tri(y)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            BN::Or(x, y) => match (self.tri(x), self.tri(y)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
        }
    }
    fn tighten(&mut self, t: T, lo: Option<Big>, hi: Option<Big>) -> bool {
        let e = self.bounds.entry(t).or_insert((None, None));
        let mut ch = false;
        if let Some(l) = lo {
            if e.0.as_ref().map_or(true, |x| l > *x) {
                e.0 = Some(l);
                ch = true;
            }
        }
        if let Some(h) = hi {
            if e.1.as_ref().map_or(true, |x| h < *x) {
                e.1 = Some(h);
                ch = true;
            }
        }
        ch
    }
    fn refine_le(&mut self, p: T) {
        // p <= 0
        let pp = self.poly(p);
        let (mut h, c) = self.split_const(&pp);
        if h.is_empty() {
            return;
        }
        let mut ch = false;
        // whole homogeneous part
        if h.len() > 1 || h[0].0.len() > 1 || !h[0].1.is_one() {
            let flip = h[0].1.is_neg();
            if flip {
                for x in h.iter_mut() {
                    x.1 = x.1.neg()
                }
            }
            let ht = self.mk_poly(Poly(h.clone()));
            ch |= if flip { self.tighten(ht, Some(c.clone()), None) } else { self.tighten(ht, None, Some(c.neg())) };
        }
        // per-monomial propagation: k*m <= -c - sum(others).lo
        if pp.0.len() <= 6 {
            for i in 0..pp.0.len() {
                let (m, k) = pp.0[i].clone();
                if m.is_empty() || m.len() > 2 {
                    continue;
                }
                let others = Poly(pp.0.iter().enumerate().filter(|(j, _)| *j != i).map(|x| x.1.clone()).collect());
                let ot = self.mk_poly(others);
                let (olo, _) = self.ivl(ot);
                let rhs = olo.neg(); // k*m <= rhs
                let mt = self.mk_poly(Poly(vec![(m.clone(), Big::ONE)]));
                let (mlo, mhi) = self.ivl(mt);
                if !k.is_neg() {
                    let ub = rhs.div(&k);
                    if ub < mhi {
                        ch |= self.tighten(mt, None, Some(ub));
                    }
                } else {
                    // m >= ceil(-rhs/|k|)
                    let lb = rhs.neg().cdiv(&k.neg());
                    if lb > mlo {
                        ch |= self.tighten(mt, Some(lb), None);
                    }
                }
                if ch {
                    self.cache.clear();
                    self.acache.clear();
                }
            }
        }
        if ch {
            self.cache.clear();
            self.acache.clear();
        }
    }
    /// record a fact that holds on this path
    pub fn learn(&mut self, b: B) {
        if b == TRUE || self.known.get(&b) == Some(&true) {
            return;
        }
        self.known.insert(b, true);
        let n = self.not(b);
        self.known.insert(n, false);
        // Ite intervals depend on `known`
        self.cache.clear();
        self.acache.clear();
        match self.bools[b as usize].clone() {
            BN::And(x, y) => {
                self.learn(x);
                self.learn(y);
            }
            BN::Or(x, y) => {
                if self.tri(x) == Some(false) {
                    self.learn(y)
                } else if self.tri(y) == Some(false) {
                    self.learn(x)
                }
            }
            BN::Not(x) => match self.bools[x as usize].clone() {
                BN::Or(y, z) => {
                    let y = self.not(y);
                    let z = self.not(z);
                    self.learn(y);
                    self.learn(z);
                }
                BN::And(y, z) => {
                    if self.tri(y) == Some(true) {
                        let z = self.not(z);
                        self.learn(z)
                    } else if self.tri(z) == Some(true) {
                        let y = self.not(y);
                        self.learn(y)
                    }
                }
                BN::Eq(p) => {
                    // p != 0: if 0 is an endpoint, tighten
                    let (lo, hi) = self.ivl(p);
                    if lo.is_zero() {
                        let n = self.neg(p);
                        let q = self.addk(n, 1);
                        self.refine_le(q);
                    } else if hi.is_zero() {
                        let q = self.addk(p, 1);
                        self.refine_le(q);
                    }
                }
                _ => {}
            },
            BN::Le(p) => self.refine_le(p),
            BN::Eq(p) => {
                self.refine_le(p);
                let n = self.neg(p);
                self.refine_le(n);
            }
            _ => {}
        }
    }

    // ---------- traversal
    pub fn atoms_of_t(&self, t: T, seen_t: &mut Vec<bool>, seen_b: &mut Vec<bool>, out: &mut Vec<A>) {
        if seen_t[t as usize] {
            return;
        }
        seen_t[t as usize] = true;
        let p = self.polys[t as usize].clone();
        for (m, _) in &p.0 {
            for a in m {
                self.atoms_of_a(*a, seen_t, seen_b, out);
            }
        }
    }
    fn atoms_of_a(&self, a: A, seen_t: &mut Vec<bool>, seen_b: &mut Vec<bool>, out: &mut Vec<A>) {
        if out.contains(&a) {
            return;
        }
        match &*self.atoms[a as usize].clone() {
            Atom::Var { .. } => {}
            Atom::Div(p, q) => {
                self.atoms_of_t(*p, seen_t, seen_b, out);
                self.atoms_of_t(*q, seen_t, seen_b, out);
            }
            Atom::Ite(b, x, y) => {
                self.atoms_of_b(*b, seen_t, seen_b, out);
                self.atoms_of_t(*x, seen_t, seen_b, out);
                self.atoms_of_t(*y, seen_t, seen_b, out);
            }
            Atom::Uf { args, .. } => {
                for x in args {
                    self.atoms_of_t(*x, seen_t, seen_b, out);
                }
            }
        }
        if !out.contains(&a) {
            out.push(a);
        }
    }
    pub fn atoms_of_b(&self, b: B, seen_t: &mut Vec<bool>, seen_b: &mut Vec<bool>, out: &mut Vec<A>) {
        if seen_b[b as usize] {
            return;
        }
        seen_b[b as usize] = true;
        match self.bools[b as usize].clone() {
            BN::True | BN::False => {}
            BN::Le(p) | BN::Eq(p) => self.atoms_of_t(p, seen_t, seen_b, out),
            BN::Not(x) => self.atoms_of_b(x, seen_t, seen_b, out),
            BN::And(x, y) | BN::Or(x, y) => {
                self.atoms_of_b(x, seen_t, seen_b, out);
                self.atoms_of_b(y, seen_t, seen_b, out);
            }
        }
    }
    pub fn marks(&self) -> (Vec<bool>, Vec<bool>) {
        (vec![false; self.polys.len()], vec![false; self.bools.len()])
    }
    /// atoms (topologically ordered, dependencies first) of a formula
    pub fn support(&self, b: B) -> Vec<A> {
        let (mut st, mut sb) = self.marks();
        let mut out = vec![];
        self.atoms_of_b(b, &mut st, &mut sb, &mut out);
        out
    }

    // ---------- concrete evaluation under a model (true semantics)
    pub fn eval_t(&self, t: T, ev: &mut Eval) -> Big {
        if let Some(v) = ev.t.get(&t) {
            return v.clone();
        }
        let p = self.polys[t as usize].clone();
        let mut r = Big::ZERO;
        for (m, k) in &p.0 {
            let mut v = k.clone();
            for a in m {
                let x = self.eval_a(*a, ev);
                v = v.mul(&x);
            }
            r = r.add(&v);
        }
        ev.t.insert(t, r.clone());
        r
    }
    pub fn eval_a(&self, a: A, ev: &mut Eval) -> Big {
        if let Some(v) = ev.a.get(&a) {
            return v.clone();
        }
        let v = match &*self.atoms[a as usize].clone() {
            Atom::Var { lo, hi, .. } => {
                // not constrained by the model: any value in range
                if *lo <= Big::ZERO && *hi >= Big::ZERO {
                    Big::ZERO
                } else {
                    lo.clone()
                }
            }
            Atom::Div(p, q) => {
                let n = self.eval_t(*p, ev);
                let d = self.eval_t(*q, ev);
                if d <= Big::ZERO {
                    Big::ZERO
                } else {
                    n.div(&d)
                }
            }
            Atom::Ite(b, x, y) => {
                if self.eval_b(*b, ev) {
                    self.eval_t(*x, ev)
                } else {
                    self.eval_t(*y, ev)
                }
            }
            Atom::Uf { f, args, lo, .. } => {
                let v: Vec<Big> = args.iter().map(|x| self.eval_t(*x, ev)).collect();
                eval_uf(f, &v).unwrap_or(lo.clone())
            }
        };
        ev.a.insert(a, v.clone());
        v
    }
    pub fn eval_b(&self, b: B, ev: &mut Eval) -> bool {
        match self.bools[b as usize].clone() {
            BN::True => true,
            BN::False => false,
            BN::Le(p) => self.eval_t(p, ev) <= Big::ZERO,
            BN::Eq(p) => self.eval_t(p, ev).is_zero(),
            BN::Not(x) => !self.eval_b(x, ev),
            BN::And(x, y) => self.eval_b(x, ev) && self.eval_b(y, ev),
            BN::Or(x, y) => self.eval_b(x, ev) || self.eval_b(y, ev),
        }
    }
    pub fn show_t(&self, t: T) -> String {
        let p = &self.polys[t as usize].0;
        if p.is_empty() {
            return "0".into();
        }
        let mut s = vec![];
        for (m, k) in p {
            let mut x: Vec<String> = m.iter().map(|a| self.show_a(*a)).collect();
            if !k.is_one() || x.is_empty() {
                x.insert(0, k.to_string());
            }
            s.push(x.join("*"));
        }
        s.join(" + ")
    }
    pub fn show_a(&self, a: A) -> String {
        match &*self.atoms[a as usize] {
            Atom::Var { name, .. } => name.clone(),
            Atom::Div(p, q) => format!("⌊({})/({})⌋", self.show_t(*p), self.show_t(*q)),
            Atom::Ite(b, x, y) => format!("ite({}, {}, {})", self.show_b(*b), self.show_t(*x), self.show_t(*y)),
            Atom::Uf { f, args, .. } => format!("{:?}({})", f, args.iter().map(|x| self.show_t(*x)).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn show_b(&self, b: B) -> String {
        match &self.bools[b as usize] {
            BN::True => "true".into(),
            BN::False => "false".into(),
            BN::Le(p) => format!("[{} <= 0]", self.show_t(*p)),
            BN::Eq(p) => format!("[{} = 0]", self.show_t(*p)),
            BN::Not(x) => format!("!{}", self.show_b(*x)),
            BN::And(x, y) => format!("({} & {})", self.show_b(*x), self.show_b(*y)),
            BN::Or(x, y) => format!("({} | {})", self.show_b(*x), self.show_b(*y)),
        }
    }
}

/// real semantics of interpreted function symbols
pub fn eval_uf(f: &Uf, v: &[Big]) -> Option<Big> {
    match f {
        Uf::BvAnd => Some(Big::from_u128(v[0].to_u128()? & v[1].to_u128()?)),
        Uf::BvOr => Some(Big::from_u128(v[0].to_u128()? | v[1].to_u128()?)),
        Uf::BvXor => Some(Big::from_u128(v[0].to_u128()? ^ v[1].to_u128()?)),
        Uf::DecPow => {
            // mirrors cosmwasm_std::Decimal::checked_pow (1.5): exponentiation by squaring with
            // floor rounding at each step; None on overflow of the intermediate Decimal
            let one = Big::S(1_000_000_000_000_000_000);
            let lim = Big::pow2(128);
            let mut n = v[1].to_u128()?;
            if n == 0 {
                return Some(one);
            }
            let mul = |a: &Big, b: &Big| {
                let r = a.mul(b).div(&one);
                if r >= lim {
                    None
                } else {
                    Some(r)
                }
            };
            let mut x = v[0].clone();
            let mut y = one.clone();
            while n > 1 {
                if n % 2 == 0 {
                    x = mul(&x, &x)?;
                    n /= 2;
                } else {
                    y = mul(&x, &y)?;
                    x = mul(&x, &x)?;
                    n = (n - 1) / 2;
                }
            }
            mul(&x, &y)
        }
        Uf::Isqrt => {
            let n = &v[0];
            let mut lo = Big::ZERO;
            let mut hi = n.add(&Big::ONE);
            while lo.add(&Big::ONE) < hi {
                let m = lo.add(&hi).div(&Big::S(2));
                if m.mul(&m) <= *n {
                    lo = m
                } else {
                    hi = m
                }
            }
            Some(lo)
        }
        Uf::Hash(_) => None,
    }
}

#[derive(Default, Clone)]
pub struct Eval {
    pub a: HashMap<A, Big>,
    pub t: HashMap<T, Big>,
}
