//! Exact integers of any size, written independently of the library's, and their square roots.
use std::cmp::Ordering;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big { pub neg: bool, /** little endian, no leading zeros */ pub d: Vec<u32> }
fn trim(mut d: Vec<u32>) -> Vec<u32> { while d.last() == Some(&0) { d.pop(); } d }
fn ucmp(a: &[u32], b: &[u32]) -> Ordering { a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev())) }
fn uadd(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() < b.len() { (b, a) } else { (a, b) };
    let (mut r, mut c) = (Vec::with_capacity(a.len() + 1), 0u64);
    for i in 0..a.len() { let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c; r.push(s as u32); c = s >> 32; }
    if c > 0 { r.push(c as u32); }
    r
}
fn usub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (mut r, mut c) = (Vec::with_capacity(a.len()), 0i64);
    for i in 0..a.len() { let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c; c = 0; if s < 0 { s += 1 << 32; c = 1; } r.push(s as u32); }
    trim(r)
}
fn umul(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() { let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c; r[i + j] = t as u32; c = t >> 32; }
        r[i + b.len()] = c as u32;
    }
    trim(r)
}
fn ushl(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() { return vec![]; }
    let (w, s) = (n / 32, n % 32);
    let mut r = vec![0u32; w];
    let mut c = 0u64;
    for x in a { let t = (*x as u64) << s | c; r.push(t as u32); c = t >> 32; }
    r.push(c as u32);
    trim(r)
}
fn ushr(a: &[u32], n: usize) -> Vec<u32> {
    let (w, s) = (n / 32, n % 32);
    if w >= a.len() { return vec![]; }
    let r = (w..a.len()).map(|i| { let t = a[i] as u64 | (*a.get(i + 1).unwrap_or(&0) as u64) << 32; (t >> s) as u32 }).collect();
    trim(r)
}
/// quotient, by long division (Knuth D)
fn udiv(a: &[u32], b: &[u32]) -> Vec<u32> {
    assert!(!b.is_empty());
    if ucmp(a, b) == Ordering::Less { return vec![]; }
    if b.len() == 1 {
        let (mut r, mut q) = (0u64, vec![0; a.len()]);
        for i in (0..a.len()).rev() { let t = r << 32 | a[i] as u64; q[i] = (t / b[0] as u64) as u32; r = t % b[0] as u64; }
        return trim(q);
    }
    let s = b[b.len() - 1].leading_zeros() as usize;
    let b = ushl(b, s);
    let mut a = ushl(a, s);
    let n = b.len();
    a.resize(a.len().max(n) + 1, 0);
    let m = a.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let t = (*a.get(j + n).unwrap_or(&0) as u64) << 32 | a[j + n - 1] as u64;
        let (mut qh, mut rh) = (t / b[n - 1] as u64, t % b[n - 1] as u64);
        while qh >> 32 != 0 || qh * b[n - 2] as u64 > (rh << 32 | a[j + n - 2] as u64) { qh -= 1; rh += b[n - 1] as u64; if rh >> 32 != 0 { break; } }
        let (mut c, mut k) = (0u64, 0i64);
        for i in 0..n { let p = qh * b[i] as u64 + c; c = p >> 32; let t = a[i + j] as i64 - k - (p & 0xffffffff) as i64; a[i + j] = t as u32; k = if t < 0 { 1 } else { 0 }; }
        if j + n < a.len() { let t = a[j + n] as i64 - k - c as i64; a[j + n] = t as u32; k = if t < 0 { 1 } else { 0 }; }
        if k > 0 { qh -= 1; let mut c = 0u64; for i in 0..n { let t = a[i + j] as u64 + b[i] as u64 + c; a[i + j] = t as u32; c = t >> 32; } if j + n < a.len() { a[j + n] = (a[j + n] as u64 + c) as u32; } }
        q[j] = qh as u32;
    }
    trim(q)
}
impl Big {
    pub fn zero() -> Big { Big { neg: false, d: vec![] } }
    fn mk(neg: bool, d: Vec<u32>) -> Big { Big { neg: neg && !d.is_empty(), d } }
    pub fn int(v: i64) -> Big { let u = v.unsigned_abs(); Big::mk(v < 0, trim(vec![u as u32, (u >> 32) as u32])) }
    pub fn pow2(n: usize) -> Big { Big::mk(false, ushl(&[1], n)) }
    pub fn is_zero(&self) -> bool { self.d.is_empty() }
    pub fn sign(&self) -> i32 { if self.d.is_empty() { 0 } else if self.neg { -1 } else { 1 } }
    pub fn bits(&self) -> usize { self.d.len() * 32 - self.d.last().map_or(0, |x| x.leading_zeros() as usize) }
    pub fn neg(&self) -> Big { Big::mk(!self.neg, self.d.clone()) }
    pub fn abs(&self) -> Big { Big::mk(false, self.d.clone()) }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg { return Big::mk(self.neg, uadd(&self.d, &o.d)); }
        match ucmp(&self.d, &o.d) { Ordering::Less => Big::mk(o.neg, usub(&o.d, &self.d)), _ => Big::mk(self.neg, usub(&self.d, &o.d)) }
    }
    pub fn sub(&self, o: &Big) -> Big { self.add(&o.neg()) }
    pub fn mul(&self, o: &Big) -> Big { Big::mk(self.neg != o.neg, umul(&self.d, &o.d)) }
    pub fn shl(&self, n: usize) -> Big { Big::mk(self.neg, ushl(&self.d, n)) }
    /// towards zero
    pub fn shr(&self, n: usize) -> Big { Big::mk(self.neg, ushr(&self.d, n)) }
    /// towards zero
    pub fn div(&self, o: &Big) -> Big { Big::mk(self.neg != o.neg, udiv(&self.d, &o.d)) }
    pub fn lt(&self, o: &Big) -> bool { self.sub(o).sign() < 0 }
    /// floor of the square root
    pub fn isqrt(&self) -> Big {
        assert!(self.sign() >= 0);
        if self.is_zero() { return Big::zero(); }
        // from above, Newton's iteration falls to the floor and stops there
        let sh = (self.bits().saturating_sub(50) + 1) & !1;
        let top = self.shr(sh);
        let t = top.d.first().copied().unwrap_or(0) as u64 | (top.d.get(1).copied().unwrap_or(0) as u64) << 32;
        let mut x = Big::int(((t + 1) as f64).sqrt() as i64 + 2).shl(sh / 2);
        loop {
            let y = x.add(&self.div(&x)).shr(1);
            if !y.lt(&x) { return x; }
            x = y;
        }
    }
    /// this as m * 2^e with 1/2 <= |m| < 1, m accurate to about 100 bits
    pub fn approx(&self) -> (crate::dd::Dd, i64) {
        use crate::dd::Dd;
        let b = self.bits();
        if b == 0 { return (Dd::ZERO, 0); }
        let t = if b > 124 { self.shr(b - 124) } else { self.clone() };
        let mut v = 0i128;
        for x in t.d.iter().rev() { v = v << 32 | *x as i128; }
        let n = t.bits();
        let s = pow2(-(n as i32));
        let q = Dd::i128(if self.neg { -v } else { v });
        (Dd { h: q.h * s, l: q.l * s }, b as i64)
    }
}
pub fn pow2(e: i32) -> f64 { let mut r = 1.0f64; let (m, mut n) = (if e < 0 { 0.5 } else { 2.0 }, e.unsigned_abs()); let mut b = m; while n > 0 { if n & 1 == 1 { r *= b; } b *= b; n >>= 1; } r }

#[cfg(test)]
mod tests {
    use super::*;
    fn to(b: &Big) -> i128 { let mut v = 0i128; for x in b.d.iter().rev() { v = v << 32 | *x as i128; } if b.neg { -v } else { v } }
    #[test]
    fn arithmetic() {
        let mut r = crate::rng::Rng::new(5);
        for _ in 0..200000 {
            let mut v = || { let k = r.below(63); let x = (r.next() >> (63 - k)) as i64; if r.chance(1, 2) { -x } else { x } };
            let (a, b, c) = (v(), v(), v());
            let (x, y) = (Big::int(a), Big::int(b));
            assert_eq!(to(&x.add(&y)), a as i128 + b as i128);
            assert_eq!(to(&x.sub(&y)), a as i128 - b as i128);
            assert_eq!(to(&x.mul(&y)), a as i128 * b as i128);
            // division and root by their definitions, on large numbers
            let p = x.mul(&y).mul(&x).mul(&Big::int(c)).add(&y).abs();
            let q = y.mul(&Big::int(c)).abs();
            if !q.is_zero() { let d = p.div(&q); let rest = p.sub(&d.mul(&q)); assert!(rest.sign() >= 0 && rest.lt(&q)); }
            let s = p.isqrt();
            let s1 = s.add(&Big::int(1));
            assert!(!p.lt(&s.mul(&s)) && p.lt(&s1.mul(&s1)));
            let k = (c & 127) as usize;
            assert_eq!(p.shl(k).shr(k), p);
            assert_eq!(p.shl(k), p.mul(&Big::pow2(k)));
        }
    }
}
