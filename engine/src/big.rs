//! Small arbitrary-precision signed integer (no external crates are available offline).
//! i128 fast path, sign+magnitude (little-endian u32 limbs) otherwise. Canonical: values that fit
//! an i128 are always `S`, so derived Eq/Hash/Ord-by-cmp are sound.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Big {
    S(i128),
    L(bool, Vec<u32>),
}
use Big::*;

fn trim(v: &mut Vec<u32>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn mag_cmp(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn mag_add(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
// a >= b
fn mag_sub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - if i < b.len() { b[i] as i64 } else { 0 } - br;
        if s < 0 {
            s += 1 << 32;
            br = 1
        } else {
            br = 0
        }
        r.push(s as u32);
    }
    trim(&mut r);
    r
}
fn mag_mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
fn mag_divrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0u32; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let cur = (r << 32) | a[i] as u64;
        q[i] = (cur / d as u64) as u32;
        r = cur % d as u64;
    }
    trim(&mut q);
    (q, r as u32)
}
fn mag_shl(a: &[u32], n: usize) -> Vec<u32> {
    let mut r = vec![0u32; n / 32];
    let s = n % 32;
    if s == 0 {
        r.extend_from_slice(a);
    } else {
        let mut c = 0u32;
        for &x in a {
            r.push((x << s) | c);
            c = x >> (32 - s);
        }
        if c > 0 {
            r.push(c)
        }
    }
    trim(&mut r);
    r
}
fn mag_divrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "division by zero");
    if mag_cmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = mag_divrem_small(a, b[0]);
        return (q, if r == 0 { vec![] } else { vec![r] });
    }
    // Knuth D
    let s = b[b.len() - 1].leading_zeros() as usize;
    let v = mag_shl(b, s);
    let mut u = mag_shl(a, s);
    while u.len() < a.len() + 1 {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n - 1 + 1;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let un = if j + n < u.len() { u[j + n] as u64 } else { 0 };
        let num = (un << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= (1 << 32) || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= (1 << 32) {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = un as i64 - borrow - carry as i64;
        if j + n < u.len() {
            u[j + n] = t as u32;
        }
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let s2 = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = s2 as u32;
                c = s2 >> 32;
            }
            if j + n < u.len() {
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    let mut r = u[..n].to_vec();
    trim(&mut r);
    // unnormalise
    if s > 0 {
        let mut o = vec![0u32; r.len()];
        for i in 0..r.len() {
            o[i] = r[i] >> s;
            if i + 1 < r.len() {
                o[i] |= r[i + 1] << (32 - s);
            }
        }
        trim(&mut o);
        r = o;
    }
    (q, r)
}

impl Big {
    pub const ZERO: Big = S(0);
    pub const ONE: Big = S(1);
    fn from_mag(neg: bool, mut m: Vec<u32>) -> Big {
        trim(&mut m);
        if m.len() <= 4 {
            let mut x = 0u128;
            for (i, l) in m.iter().enumerate() {
                x |= (*l as u128) << (32 * i);
            }
            if neg {
                if x <= 1u128 << 127 {
                    return S((x as i128).wrapping_neg());
                }
            } else if x <= i128::MAX as u128 {
                return S(x as i128);
            }
        }
        L(neg, m)
    }
    fn mag(&self) -> (bool, Vec<u32>) {
        match self {
            S(x) => {
                let mut m = vec![];
                let mut a = x.unsigned_abs();
                while a > 0 {
                    m.push(a as u32);
                    a >>= 32;
                }
                (*x < 0, m)
            }
            L(n, m) => (*n, m.clone()),
        }
    }
    pub fn from_u128(x: u128) -> Big {
        if x <= i128::MAX as u128 {
            S(x as i128)
        } else {
            Big::from_mag(false, vec![x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32])
        }
    }
    pub fn from_bytes_le(b: &[u8]) -> Big {
        let m = b.chunks(4).map(|c| c.iter().enumerate().fold(0u32, |a, (i, x)| a | (*x as u32) << (8 * i))).collect();
        Big::from_mag(false, m)
    }
    /// little-endian bytes of a non-negative value, zero-extended/truncated to n bytes
    pub fn to_bytes_le(&self, n: usize) -> Vec<u8> {
        let (neg, m) = self.mag();
        assert!(!neg);
        let mut r = vec![0u8; n];
        for (i, l) in m.iter().enumerate() {
            for k in 0..4 {
                if i * 4 + k < n {
                    r[i * 4 + k] = (l >> (8 * k)) as u8;
                }
            }
        }
        r
    }
    pub fn to_u128(&self) -> Option<u128> {
        match self {
            S(x) if *x >= 0 => Some(*x as u128),
            L(false, m) if m.len() <= 4 => Some(m.iter().enumerate().fold(0u128, |a, (i, l)| a | (*l as u128) << (32 * i))),
            _ => None,
        }
    }
    pub fn pow2(n: u32) -> Big {
        if n < 127 {
            S(1i128 << n)
        } else {
            Big::from_mag(false, mag_shl(&[1], n as usize))
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1))
    }
    pub fn is_neg(&self) -> bool {
        match self {
            S(x) => *x < 0,
            L(n, _) => *n,
        }
    }
    pub fn is_even(&self) -> bool {
        match self {
            S(x) => x & 1 == 0,
            L(_, m) => m[0] & 1 == 0,
        }
    }
    pub fn neg(&self) -> Big {
        match self {
            S(x) if *x != i128::MIN => S(-x),
            _ => {
                let (n, m) = self.mag();
                Big::from_mag(!n, m)
            }
        }
    }
    pub fn abs(&self) -> Big {
        if self.is_neg() {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn add(&self, o: &Big) -> Big {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_add(*b) {
                return S(r);
            }
        }
        let (an, am) = self.mag();
        let (bn, bm) = o.mag();
        if an == bn {
            Big::from_mag(an, mag_add(&am, &bm))
        } else if mag_cmp(&am, &bm) != Ordering::Less {
            Big::from_mag(an, mag_sub(&am, &bm))
        } else {
            Big::from_mag(bn, mag_sub(&bm, &am))
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if let (S(a), S(b)) = (self, o) {
            if let Some(r) = a.checked_mul(*b) {
                return S(r);
            }
        }
        let (an, am) = self.mag();
        let (bn, bm) = o.mag();
        Big::from_mag(an != bn, mag_mul(&am, &bm))
    }
    /// floor division (towards -inf) and non-negative remainder; divisor must be positive
    pub fn div_mod(&self, o: &Big) -> (Big, Big) {
        assert!(!o.is_neg() && !o.is_zero());
        if let (S(a), S(b)) = (self, o) {
            return (S(a.div_euclid(*b)), S(a.rem_euclid(*b)));
        }
        let (an, am) = self.mag();
        let (_, bm) = o.mag();
        let (q, r) = mag_divrem(&am, &bm);
        let q = Big::from_mag(false, q);
        let r = Big::from_mag(false, r);
        if !an {
            (q, r)
        } else if r.is_zero() {
            (q.neg(), r)
        } else {
            (q.neg().sub(&Big::ONE), o.sub(&r))
        }
    }
    pub fn div(&self, o: &Big) -> Big {
        self.div_mod(o).0
    }
    pub fn rem(&self, o: &Big) -> Big {
        self.div_mod(o).1
    }
    /// ceil division by a positive divisor
    pub fn cdiv(&self, o: &Big) -> Big {
        let (q, r) = self.div_mod(o);
        if r.is_zero() {
            q
        } else {
            q.add(&Big::ONE)
        }
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let mut a = self.abs();
        let mut b = o.abs();
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn bits(&self) -> u32 {
        let (_, m) = self.mag();
        if m.is_empty() {
            0
        } else {
            (m.len() as u32) * 32 - m[m.len() - 1].leading_zeros()
        }
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let mut r = Big::ZERO;
        for c in d.as_bytes().chunks(18) {
            let k: i128 = std::str::from_utf8(c).unwrap().parse().unwrap();
            r = r.mul(&S(10i128.pow(c.len() as u32))).add(&S(k));
        }
        Some(if neg { r.neg() } else { r })
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        if let (S(a), S(b)) = (self, o) {
            return a.cmp(b);
        }
        match (self.is_neg(), o.is_neg()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (n, _) => {
                let c = mag_cmp(&self.mag().1, &o.mag().1);
                if n {
                    c.reverse()
                } else {
                    c
                }
            }
        }
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            S(x) => write!(f, "{}", x),
            L(n, m) => {
                let mut parts = vec![];
                let mut m = m.clone();
                while !m.is_empty() {
                    let (q, r) = mag_divrem_small(&m, 1_000_000_000);
                    parts.push(r);
                    m = q;
                }
                let mut s = String::new();
                if *n {
                    s.push('-');
                }
                for (i, p) in parts.iter().rev().enumerate() {
                    if i == 0 {
                        s += &p.to_string()
                    } else {
                        s += &format!("{:09}", p)
                    }
                }
                f.write_str(&s)
            }
        }
    }
}
impl fmt::Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn ops() {
        let mut seed = 88172645463325252u64;
        let mut rnd = || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for i in 0..20000 {
            let na = (rnd() % 9) as usize;
            let nb = (rnd() % 6) as usize + 1;
            let mk = |n: usize, r: &mut dyn FnMut() -> u64| {
                let m: Vec<u32> = (0..n).map(|_| match r() % 4 { 0 => u32::MAX, 1 => 0, 2 => 0x8000_0000, _ => r() as u32 }).collect();
                Big::from_mag(r() % 2 == 0, m)
            };
            let a = mk(na, &mut rnd);
            let b = mk(nb, &mut rnd).abs().add(&Big::ONE);
            let (q, r) = a.div_mod(&b);
            assert!(!r.is_neg() && r < b, "{} {} {} {}", i, a, b, r);
            assert_eq!(q.mul(&b).add(&r), a, "{} {} {}", i, a, b);
            assert_eq!(Big::parse(&a.to_string()).unwrap(), a);
            assert_eq!(a.sub(&b).add(&b), a);
        }
    }
}
