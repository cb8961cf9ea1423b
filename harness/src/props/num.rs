//! P18 to P20: the number types under the predicates.
use crate::big::*;
use crate::dd::Dd;
use crate::engine::*;
use crate::ensure;
use crate::rng::*;
use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
use boostvoronoi_ext::extended_int::ExtendedInt;
use boostvoronoi_ext::robust_fpt::{RobustDif, RobustFpt};
use serde::{Deserialize, Serialize};

type EE = ExtendedExponentFpt<f64>;
const U: f64 = 1.1102230246251565e-16;

// ---- P18 ----------------------------------------------------------------------------------
/// (operation, first, second, leaf): operands count back from the newest value
#[derive(Clone, Serialize, Deserialize)]
pub struct IntCase { pub ops: Vec<(u8, u8, u8, i64)> }
fn leaf(op: u8, v: i64) -> ExtendedInt {
    // every integer type that holds the value
    match op % 8 {
        1 if i32::try_from(v).is_ok() => ExtendedInt::from(v as i32),
        2 if u32::try_from(v).is_ok() => ExtendedInt::from(v as u32),
        3 if v >= 0 => ExtendedInt::from(v as u64),
        4 if i8::try_from(v).is_ok() => ExtendedInt::from(v as i8),
        5 => ExtendedInt::from(v as i128),
        6 => ExtendedInt::from(v as isize),
        7 if u16::try_from(v).is_ok() => ExtendedInt::from(v as u16),
        _ => ExtendedInt::from(v),
    }
}
/// |p.0 * 2^p.1 - v| relative to v
fn rel_err(m: f64, e: i64, v: &Big) -> f64 {
    let (q, qe) = v.approx();
    if q.h == 0.0 { return if m == 0.0 { 0.0 } else { f64::INFINITY }; }
    if m == 0.0 { return 1.0; }
    let (fm, fe) = frexp(m);
    let d = fe + e - qe;
    if d.abs() > 3 { return f64::INFINITY; }
    ((Dd::new(fm * pow2(d as i32)) - q).abs() / q.abs()).f()
}
fn frexp(x: f64) -> (f64, i64) { if x == 0.0 { return (x, 0); } let b = x.to_bits(); let e = ((b >> 52) & 0x7ff) as i64; if e == 0 { let (m, k) = frexp(x * pow2(64)); return (m, k - 64); } (f64::from_bits(b & !(0x7ff << 52) | 1022 << 52), e - 1022) }
fn check_int_value(x: &ExtendedInt, v: &Big, what: &dyn Fn() -> String) -> Res {
    ensure!(x.is_pos() == (v.sign() > 0) && x.is_neg() == (v.sign() < 0) && x.is_zero() == v.is_zero(), "int-sign", "{}: pos {} neg {} zero {}, the value has sign {}", what(), x.is_pos(), x.is_neg(), x.is_zero(), v.sign());
    ensure!(num_traits::Zero::is_zero(x) == v.is_zero(), "int-sign", "{}: Zero::is_zero is {}", what(), v.is_zero());
    ensure!(x.size() == v.d.len(), "int-size", "{}: size is {}, the value has {} words", what(), x.size(), v.d.len());
    let (m, e) = x.p();
    let err = rel_err(m, e as i64, v);
    ensure!(err <= 3.0 * U, "int-float", "{}: p() is {m:e} * 2^{e}, off by {err:e}", what());
    let d = x.d();
    if v.bits() <= 1023 { let err = rel_err(d, 0, v); ensure!(err <= 3.0 * U, "int-float", "{}: d() is {d:e}, off by {err:e}", what()); }
    else if v.bits() > 1025 { ensure!(d == f64::INFINITY * v.sign() as f64, "int-float", "{}: d() is {d:e} for a value beyond the range", what()); }
    Ok(())
}
fn check_int(c: &IntCase, o: &mut Obs) -> Res {
    let mut x: Vec<ExtendedInt> = vec![];
    let mut v: Vec<Big> = vec![];
    for (k, &(op, i, j, l)) in c.ops.iter().enumerate() {
        let n = x.len();
        let at = |i: u8| n - 1 - i as usize % n;
        let op = if n == 0 { op % 8 } else { op };
        let (nx, nv) = match op {
            0..=7 => (leaf(op, l), Big::int(l)),
            8..=10 => { let (a, b) = (at(i), at(j)); (match op { 8 => x[a].clone() + x[b].clone(), 9 => &x[a] + &x[b], _ => x[a].clone() + &x[b] }, v[a].add(&v[b])) }
            11..=13 => { let (a, b) = (at(i), at(j)); (match op { 11 => x[a].clone() - x[b].clone(), 12 => &x[a] - &x[b], _ => x[a].clone() - &x[b] }, v[a].sub(&v[b])) }
            14..=16 => { let (a, b) = (at(i), at(j)); if v[a].d.len() + v[b].d.len() > 48 { continue; } (match op { 14 => x[a].clone() * x[b].clone(), 15 => &x[a] * &x[b], _ => x[a].clone() * &x[b] }, v[a].mul(&v[b])) }
            17 => { let a = at(i); if v[a].d.len() > 47 { continue; } (x[a].clone() * (l as i32), v[a].mul(&Big::int(l as i32 as i64))) }
            18 => { let a = at(i); (-x[a].clone(), v[a].neg()) }
            19 => (if l & 1 == 0 { <ExtendedInt as num_traits::Zero>::zero() } else { ExtendedInt::default() }, Big::zero()),
            _ => (<ExtendedInt as num_traits::One>::one(), Big::int(1)),
        };
        let what = || format!("value {k} of {:?}", &c.ops);
        check_int_value(&nx, &nv, &what)?;
        o.sub += 1;
        if nv.d.len() > 3 { o.label("more than 3 words"); o.nontrivial = true; }
        if nv.d.len() > 12 { o.label("more than 12 words"); }
        if n > 0 && (11..=13).contains(&op) && nv.d.len() + 2 <= v[at(i)].d.len() { o.label("cancellation over 2 words"); }
        x.push(nx);
        v.push(nv);
    }
    // every bit: the value, rebuilt from the model's words, leaves nothing behind
    let sep = ExtendedInt::from(1i64 << 32);
    for (a, b) in x.iter().zip(&v).rev().take(3) {
        let mut r = ExtendedInt::from(0);
        for w in b.d.iter().rev() { r = &r * &sep + &ExtendedInt::from(*w); }
        if b.neg { r = -r; }
        let one = ExtendedInt::from(1);
        for (n, e, w) in [(0, a - &r, Big::zero()), (1, &r - a, Big::zero()), (2, &(&r + &one) - a, Big::int(1)), (3, &(&r - &one) - a, Big::int(-1)), (4, a + &r, b.add(b))] {
            check_int_value(&e, &w, &|| format!("rebuilt value {n} of {:?}", &c.ops))?;
            ensure!((n == 4) || e.d() == w.sign() as f64, "int-bits", "value of {:?} differs from the model in its low bits", c.ops);
        }
        o.sub += 5;
    }
    Ok(())
}
fn gen_i64(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.range(-3, 3),
        1 => *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 32, (1 << 32) + 1, -(1 << 32), -(1i64 << 32) + 1]),
        2 | 3 => { let k = r.below(63); let v = (1i64 << k) + r.range(-1, 1); if r.chance(1, 2) { -v } else { v } }
        _ => { let k = r.below(63); let v = (r.next() >> (63 - k)) as i64; if r.chance(1, 2) { v.wrapping_neg() } else { v } }
    }
}
fn gen_int(r: &mut Rng) -> IntCase {
    let n = 3 + r.us(12);
    let mut ops = vec![];
    while ops.len() < n {
        let near = |r: &mut Rng| if r.chance(2, 3) { r.below(3) as u8 } else { r.below(16) as u8 };
        match r.below(12) {
            // a power of two, one off it, or a value minus something close to it
            0 => { ops.push((0, 0, 0, 1 << r.below(63))); for _ in 0..r.below(4) { ops.push((14 + r.below(3) as u8, 0, 0, 0)); } ops.push((20, 0, 0, 0)); ops.push((11 + r.below(3) as u8, 1, 0, 0)); ops.push((12, 2, 0, 0)); }
            1 => { ops.push((r.below(8) as u8, 0, 0, gen_i64(r))); ops.push((8 + r.below(6) as u8, 1, 0, 0)); ops.push((11 + r.below(3) as u8, if r.chance(1, 2) { 2 } else { 0 }, if r.chance(1, 2) { 0 } else { 2 }, 0)); }
            2 | 3 => ops.push((r.below(8) as u8, 0, 0, gen_i64(r))),
            4 | 5 => ops.push((8 + r.below(3) as u8, near(r), near(r), 0)),
            6 | 7 => ops.push((11 + r.below(3) as u8, near(r), near(r), 0)),
            8 | 9 => ops.push((14 + r.below(3) as u8, near(r), near(r), 0)),
            10 => ops.push((17, near(r), 0, gen_i64(r) as i32 as i64)),
            _ => ops.push((18 + r.below(3) as u8, near(r), 0, r.below(2) as i64)),
        }
    }
    IntCase { ops }
}
fn shrink_int(c: &IntCase) -> Vec<IntCase> {
    let mut v = vec![];
    for i in (0..c.ops.len()).rev() { let mut d = c.clone(); d.ops.remove(i); v.push(d); }
    for i in 0..c.ops.len() {
        let (op, a, b, l) = c.ops[i];
        if op > 0 && op < 8 { let mut d = c.clone(); d.ops[i].0 = 0; v.push(d); }
        if op > 7 && op < 17 && (op - 8) % 3 != 1 { let mut d = c.clone(); d.ops[i].0 = op - (op - 8) % 3 + 1; v.push(d); }
        if a > 0 { let mut d = c.clone(); d.ops[i].1 -= 1; v.push(d); }
        if b > 0 { let mut d = c.clone(); d.ops[i].2 -= 1; v.push(d); }
        for m in [0, 1, l / 2, l / 65536] { if m != l { let mut d = c.clone(); d.ops[i].3 = m; if d.ops[i].0 < 8 || d.ops[i].0 == 17 { v.push(d); } } }
    }
    v
}

// ---- P19 ----------------------------------------------------------------------------------
/// (mantissa, exponent) pairs and the operations applied to neighbours
#[derive(Clone, Serialize, Deserialize)]
pub struct ExpCase { pub leaves: Vec<(f64, i32)>, pub ops: Vec<(u8, u8, u8)> }
/// value of an EE as (Dd mantissa in [1/2, 1), exponent)
fn ee_of(x: &EE) -> (Dd, i64) { let (m, e) = frexp(x.val()); (Dd::new(m), e + x.exp() as i64) }
fn norm(m: Dd, e: i64) -> (Dd, i64) { if m.h == 0.0 { return (Dd::ZERO, 0); } let (_, k) = frexp(m.h); let s = pow2(-k as i32); (Dd { h: m.h * s, l: m.l * s }, e + k) }
fn ee_add(a: (Dd, i64), b: (Dd, i64)) -> (Dd, i64) {
    if a.0.h == 0.0 { return b; }
    if b.0.h == 0.0 { return a; }
    let (a, b) = if a.1 < b.1 { (b, a) } else { (a, b) };
    let d = a.1 - b.1;
    if d > 200 { return a; }
    let s = pow2(-d as i32);
    norm(a.0 + Dd { h: b.0.h * s, l: b.0.l * s }, a.1)
}
fn ee_err(got: (Dd, i64), want: (Dd, i64)) -> f64 {
    let d = ee_add(got, (-want.0, want.1));
    if d.0.h == 0.0 { return 0.0; }
    if want.0.h == 0.0 { return f64::INFINITY; }
    let k = d.1 - want.1;
    if k > 100 { return f64::INFINITY; }
    if k < -1000 { return 0.0; }
    (d.0.h / want.0.h).abs() * pow2(k as i32)
}
/// a float to multiply or divide by: of moderate, extreme, or the operand's own size
fn factor(b: &EE, k: usize) -> f64 {
    let d = b.d();
    match k % 4 {
        1 if d.is_finite() => d,
        2 => b.val() * pow2(1000) * 8388607.0,
        3 => b.val() * 3.0 * pow2(-1000) * if b.is_pos() { 1.0 } else { pow2(-40) },
        _ => b.val() * 3.0,
    }
}
fn check_exp(c: &ExpCase, o: &mut Obs) -> Res {
    let mut x: Vec<EE> = vec![];
    let state = |x: &EE, want: (Dd, i64), ulps: f64, what: &dyn Fn() -> String| -> Res {
        let err = ee_err(ee_of(x), want);
        ensure!(err <= ulps * U * 1.0001, "exp-value", "{}: {:?} is off by {err:e} relative", what(), x);
        ensure!(x.is_pos() == (want.0.h > 0.0) && x.is_neg() == (want.0.h < 0.0) && x.is_zero() == (want.0.h == 0.0), "exp-sign", "{}: pos {} neg {} zero {}, want {:e}", what(), x.is_pos(), x.is_neg(), x.is_zero(), want.0.h);
        if !x.is_zero() { ensure!(x.val().abs() >= 0.5 && x.val().abs() < 1.0, "exp-normal", "{}: mantissa {}", what(), x.val()); }
        // as a float
        let (m, e) = ee_of(x);
        let d = x.d();
        if m.h == 0.0 { ensure!(d == 0.0, "exp-float", "{}: zero is {d}", what()); }
        else if e > 1024 { ensure!(d == f64::INFINITY * m.h.signum(), "exp-float", "{}: d() is {d}, beyond the range", what()); }
        else if e >= -1021 { let (dm, de) = frexp(d); ensure!(dm == m.h && de == e, "exp-float", "{}: d() is {d:e}, the value {} * 2^{e}", what(), m.h); }
        else { ensure!(d.abs() <= f64::MIN_POSITIVE && (e < -1030 || (d / pow2(-1000) - m.h * pow2((e + 1000) as i32)).abs() <= pow2(-74)), "exp-float", "{}: d() is {d:e}, below the range", what()); }
        ensure!(f64::from(*x).to_bits() == d.to_bits(), "exp-float", "{}: the two conversions differ", what());
        Ok(())
    };
    for (k, &(m, e)) in c.leaves.iter().enumerate() {
        let n = EE::new(m, e);
        let (fm, fe) = frexp(m);
        state(&n, (Dd::new(fm), fe + e as i64), 0.0, &|| format!("new({m:e}, {e})"))?;
        if e == 0 { state(&EE::from(m), (Dd::new(fm), fe), 0.0, &|| format!("from({m:e})"))?; }
        x.push(n);
        let _ = k;
    }
    for (k, &(op, i, j)) in c.ops.iter().enumerate() {
        let n = x.len();
        let (a, b) = (x[n - 1 - i as usize % n], x[n - 1 - j as usize % n]);
        let (va, vb) = (ee_of(&a), ee_of(&b));
        let what = || format!("operation {k} of {c:?}: {a:?} {} {b:?}", ["+", "-", "*", "/", "sqrt", "neg", "* float", "/ float"][op as usize % 8]);
        if va.1.abs() + vb.1.abs() > 1_000_000_000 { continue; }
        let (r, want, ulps, asg) = match op % 8 {
            0 => (a + b, ee_add(va, vb), 1.0, Some({ let mut t = a; t += b; t })),
            1 => (a - b, ee_add(va, (-vb.0, vb.1)), 1.0, Some({ let mut t = a; t -= b; t })),
            2 => (a * b, norm(va.0 * vb.0, va.1 + vb.1), 1.0, Some({ let mut t = a; t *= b; t })),
            3 => { if b.is_zero() { continue; } (a / b, norm(va.0 / vb.0, va.1 - vb.1), 1.0, Some({ let mut t = a; t /= b; t })) }
            4 => { if a.is_neg() { continue; } let odd = va.1.rem_euclid(2); (a.sqrt(), norm((va.0 * Dd::new(if odd == 1 { 2.0 } else { 1.0 })).sqrt(), (va.1 - odd) / 2), 1.0, None) }
            5 => (-a, (-va.0, va.1), 0.0, None),
            6 => { let f = factor(&b, k); let (m, e) = frexp(f); (a * f, norm(va.0 * Dd::new(m), va.1 + e), 1.0, None) }
            _ => { let f = factor(&b, k); if f == 0.0 { continue; } let (m, e) = frexp(f); (a / f, norm(va.0 / Dd::new(m), va.1 - e), 1.0, None) }
        };
        state(&r, want, ulps, &what)?;
        if let Some(t) = asg { state(&t, want, ulps, &|| format!("{} (assigning)", what()))?; }
        if op % 8 < 2 && !a.is_zero() && !b.is_zero() { if (va.1 - vb.1).abs() <= 60 && (va.1 - vb.1).abs() >= 50 { o.label("sum at the limit of significance"); } if r.is_zero() || ee_of(&r).1 < va.1.max(vb.1) - 20 { o.label("cancellation"); } o.nontrivial = true; }
        if a.is_zero() != b.is_zero() { o.label("one operand zero"); }
        if ee_of(&r).1.abs() > 1100 { o.label("beyond the float range"); }
        o.sub += 1;
        x.push(r);
    }
    Ok(())
}
impl std::fmt::Debug for ExpCase { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?} {:?}", self.leaves, self.ops) } }
fn gen_mant(r: &mut Rng) -> f64 {
    let m = match r.below(8) { 0 => 0.0, 1 => 1.0, 2 => 1.0 - U, 3 => 1.0 + 2.0 * U, 4 => r.range(1, 100) as f64, 5 => f64::from_bits((1022 << 52) | (r.next() & 0xfffff)), _ => 0.5 + r.f01() / 2.0 };
    if r.chance(1, 3) { -m } else { m }
}
fn gen_exp(r: &mut Rng) -> ExpCase {
    let base = *r.pick(&[0i64, 0, 0, 30, -30, -60, -1074, -200, 1000, 5000, -5000, 100_000, 10_000_000]);
    let leaves = (0..2 + r.us(4)).map(|_| (gen_mant(r), match r.below(5) { 0 => 0, 1 => base + r.range(-3, 3), 2 => base + r.range(-60, 60), 3 => base + *r.pick(&[-57i64, -56, -55, -54, -53, -52, 52, 53, 54, 55, 56, 57]), _ => base } as i32)).collect();
    let ops = (0..1 + r.us(8)).map(|_| (if r.chance(1, 2) { r.below(2) as u8 } else { r.below(8) as u8 }, r.below(6) as u8, r.below(6) as u8)).collect();
    ExpCase { leaves, ops }
}
fn shrink_exp(c: &ExpCase) -> Vec<ExpCase> {
    let mut v = vec![];
    for i in 0..c.ops.len() { let mut d = c.clone(); d.ops.remove(i); v.push(d); }
    if c.leaves.len() > 1 { for i in 0..c.leaves.len() { let mut d = c.clone(); d.leaves.remove(i); v.push(d); } }
    for i in 0..c.leaves.len() { let (m, e) = c.leaves[i]; for n in [(1.0, e), (-1.0, e), (0.0, e), (m, 0), (m, e / 2), (m, e - e.signum())] { if n != (m, e) && (n.1.abs() < e.abs() || n.0 != m) && m != 0.0 && m.abs() != 1.0 || (n.0 == m && n.1.abs() < e.abs()) { let mut d = c.clone(); d.leaves[i] = n; v.push(d); } } }
    for i in 0..c.ops.len() { for k in 0..2 { let mut d = c.clone(); let p = if k == 0 { &mut d.ops[i].1 } else { &mut d.ops[i].2 }; if *p > 0 { *p -= 1; v.push(d); } } }
    v
}

// ---- P20 ----------------------------------------------------------------------------------
/// leaves are exact (error 0) or given with an error bound that they are placed within
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RobCase { pub leaves: Vec<(f64, f64, f64)>, pub ops: Vec<(u8, u8, u8)> }
/// the true value and how well it is known
#[derive(Clone, Copy, Debug)]
struct Tr { v: Dd, e: f64 }
const DD: f64 = 1e-31;
impl Tr {
    fn add(self, o: Tr) -> Tr { let v = self.v + o.v; Tr { v, e: self.e + o.e + DD * (self.v.h.abs() + o.v.h.abs()) } }
    fn neg(self) -> Tr { Tr { v: -self.v, e: self.e } }
    fn sub(self, o: Tr) -> Tr { self.add(o.neg()) }
    fn mul(self, o: Tr) -> Tr { let v = self.v * o.v; Tr { v, e: self.e * o.v.h.abs() + o.e * self.v.h.abs() + self.e * o.e + DD * v.h.abs() } }
    fn div(self, o: Tr) -> Tr { let v = self.v / o.v; let d = o.v.h.abs() - o.e; Tr { v, e: if d > 0.0 { (self.e + v.h.abs() * o.e) / d + DD * v.h.abs() } else { f64::INFINITY } } }
    fn sqrt(self) -> Tr { let v = self.v.sqrt(); Tr { v, e: if v.h > 0.0 { self.e / v.h + DD * v.h } else { self.e.sqrt() } } }
}
const EPS: f64 = 2.0 * U;
/// relative errors judged and carried further: above this the first order bounds lose their slack
const JUDGED: f64 = 1048576.0;
fn within(x: &RobustFpt, t: Tr) -> Option<(f64, f64)> {
    let err = (Dd::new(x.fpv()) - t.v).abs().f();
    let lim = x.re() * EPS * x.fpv().abs() * (1.0 + 1e-9) + t.e * (1.0 + 1e-9);
    if err <= lim { None } else { Some((err, lim)) }
}
fn flat(x: &RobustFpt) -> bool { x.re() <= JUDGED && x.fpv().is_finite() && (x.fpv() == 0.0 || (x.fpv().abs() > 1e-90 && x.fpv().abs() < 1e90)) }
fn rob_leaf(l: &(f64, f64, f64)) -> (RobustFpt, Tr) {
    let (f, re, at) = *l;
    if re == 0.0 { (RobustFpt::from(f), Tr { v: Dd::new(f), e: 0.0 }) } else { (RobustFpt::new(f, re), Tr { v: Dd::new(f) + Dd::new(f * re * EPS * at), e: f.abs() * DD }) }
}
fn check_rob(c: &RobCase, o: &mut Obs) -> Res {
    let mut x: Vec<(RobustFpt, Tr)> = c.leaves.iter().map(rob_leaf).collect();
    for (k, &(op, i, j)) in c.ops.iter().enumerate() {
        let n = x.len();
        let ((a, ta), (b, tb)) = (x[n - 1 - i as usize % n], x[n - 1 - j as usize % n]);
        if !flat(&a) || !flat(&b) { continue; }
        let (r, t, asg, doc) = match op % 7 {
            0 => (a + b, ta.add(tb), Some({ let mut t = a; t += b; t }), if a.fpv() * b.fpv() >= 0.0 { a.re().max(b.re()) + 1.0 } else { (a.fpv().abs() * a.re() + b.fpv().abs() * b.re()) / (a.fpv() + b.fpv()).abs() + 1.0 }),
            1 => (a - b, ta.sub(tb), Some({ let mut t = a; t -= b; t }), if a.fpv() * b.fpv() <= 0.0 { a.re().max(b.re()) + 1.0 } else { (a.fpv().abs() * a.re() + b.fpv().abs() * b.re()) / (a.fpv() - b.fpv()).abs() + 1.0 }),
            2 => (a * b, ta.mul(tb), Some({ let mut t = a; t *= b; t }), a.re() + b.re() + 1.0),
            3 => { if b.fpv() == 0.0 { continue; } (a / b, ta.div(tb), Some({ let mut t = a; t /= b; t }), a.re() + b.re() + 1.0) }
            4 => { if a.fpv() < 0.0 || ta.v.neg_p() { continue; } (a.sqrt(), ta.sqrt(), None, a.re() * 0.5 + 1.0) }
            5 => (-a, ta.neg(), None, a.re()),
            _ => { let f = b.fpv(); if f == 0.0 { continue; } let tf = Tr { v: Dd::new(f), e: 0.0 }; if k % 2 == 0 { (a * f, ta.mul(tf), None, a.re() + 1.0) } else { (a / f, ta.div(tf), None, a.re() + 1.0) } }
        };
        o.sub += 1;
        let all = [Some(r), asg];
        for r in all.iter().flatten() {
            ensure!(!r.re().is_nan() && r.re() >= 0.0, "rob-error", "operation {k} of {c:?}: the error bound is {}", r.re());
            ensure!(r.ulp() == r.re() && r.is_pos() == (r.fpv() > 0.0) && r.is_neg() == (r.fpv() < 0.0) && r.is_zero() == (r.fpv() == 0.0), "rob-sign", "operation {k} of {c:?}: signs of {r:?}");
            let mut copy = RobustFpt::from(7.0);
            let same = { let c = copy.assign_from(r); (c.fpv().to_bits(), c.re().to_bits()) };
            ensure!(same == (r.fpv().to_bits(), r.re().to_bits()) && copy.fpv().to_bits() == same.0, "rob-copy", "operation {k} of {c:?}: {r:?} is copied as {copy:?}");
            if !flat(r) { o.label("error not judged"); continue; }
            if let Some((e, l)) = within(r, t) { return fail("rob-bound", format!("operation {k} of {c:?}: {a:?} {b:?} gives {r:?}, off by {e:e}, bound {l:e}")); }
            ensure!(!(r.re() > doc * (1.0 + 1e-9)), "rob-wide", "operation {k} of {c:?}: {a:?} {b:?} gives error {}, the rules give {doc}", r.re());
            o.label(["add", "sub", "mul", "div", "sqrt", "neg", "by float"][op as usize % 7]);
            if op % 7 < 2 && r.re() > 4.0 * a.re().max(b.re()).max(1.0) { o.label("cancellation"); }
        }
        if r.fpv() != 0.0 && flat(&r) { o.nontrivial = true; }
        if flat(&r) { x.push((r, t)); }
    }
    Ok(())
}
/// differences kept as two sums
fn check_dif(c: &RobCase, o: &mut Obs) -> Res {
    let leaves: Vec<(RobustFpt, Tr)> = c.leaves.iter().map(rob_leaf).collect();
    let mut x: Vec<(RobustDif, Tr)> = vec![(RobustDif::default(), Tr { v: Dd::ZERO, e: 0.0 })];
    for (k, &(op, i, j)) in c.ops.iter().enumerate() {
        let n = x.len();
        let ((a, ta), (b, tb)) = (x[n - 1 - i as usize % n], x[n - 1 - j as usize % n]);
        let (f, tf) = leaves[j as usize % leaves.len()];
        let g = f.fpv();
        let tg = Tr { v: Dd::new(g), e: 0.0 };
        let asg = |f: &dyn Fn(&mut RobustDif)| { let mut t = a; f(&mut t); Some(t) };
        let (r, t, s) = match op % 14 {
            0 => (RobustDif::from(f), tf, None),
            1 => (RobustDif::from(g), tg, if g >= 0.0 && !g.is_sign_negative() { Some(RobustDif::new(g, 0.0)) } else { Some(RobustDif::new(0.0, -g)) }),
            2 => { let h = leaves[i as usize % leaves.len()]; if f.is_neg() || h.0.is_neg() { continue; } (RobustDif::from((f, h.0)), tf.sub(h.1), None) }
            3 => (a + b, ta.add(tb), asg(&|t| *t += b)),
            4 => (a - b, ta.sub(tb), asg(&|t| *t -= b)),
            5 => (a * b, ta.mul(tb), asg(&|t| *t *= b)),
            6 => (-a, ta.neg(), None),
            7 => (asg(&|t| *t += f).unwrap(), ta.add(tf), None),
            8 => (a - f, ta.sub(tf), asg(&|t| *t -= f)),
            9 => (a * f, ta.mul(tf), asg(&|t| *t *= f)),
            10 => (a * g, ta.mul(tg), asg(&|t| *t *= g)),
            11 | 12 => { if g == 0.0 { continue; } (asg(&|t| *t /= f).unwrap(), ta.div(tf), None) }
            _ => (RobustDif::from(f), tf, None),
        };
        o.sub += 1;
        let mut keep = true;
        for (w, r) in [Some(r), s].iter().enumerate().filter_map(|(w, r)| r.as_ref().map(|r| (w, r))) {
            let (p, q) = (r.positive(), r.negative());
            let nm = ["from", "from float", "from pair", "+", "-", "*", "neg", "+= value", "- value", "* value", "* float", "/= value", "/= value", "from"][op as usize % 14];
            if !flat(&p) || !flat(&q) { keep = false; o.label("error not judged"); continue; }
            ensure!(!p.is_neg() && !q.is_neg(), "dif-negative", "operation {k} ({nm}{}) of {c:?}: a sum is negative: {r:?}", if w == 1 { ", assigning" } else { "" });
            // the two sums may each be off by their own bound
            let d = Dd::new(p.fpv()) - Dd::new(q.fpv());
            let err = (d - t.v).abs().f();
            let lim = EPS * (p.re() * p.fpv() + q.re() * q.fpv()) * (1.0 + 1e-9) + t.e * (1.0 + 1e-9);
            ensure!(err <= lim, "dif-value", "operation {k} ({nm}{}) of {c:?}: {a:?} {b:?} {f:?} gives {r:?}, off by {err:e}, bound {lim:e}", if w == 1 { ", assigning" } else { "" });
            let v = r.dif();
            if flat(&v) { if let Some((e, l)) = within(&v, t) { return fail("dif-bound", format!("operation {k} ({nm}) of {c:?}: the difference {v:?} is off by {e:e}, bound {l:e}")); } }
            if p.fpv() > 0.0 && q.fpv() > 0.0 { o.label("both sums in use"); o.nontrivial = true; }
        }
        if keep { x.push((r, t)); }
    }
    Ok(())
}
fn gen_rob(r: &mut Rng) -> RobCase {
    let n = 2 + r.us(5);
    let big = *r.pick(&[4u64, 10, 20, 40, 60]);
    let mut leaves: Vec<(f64, f64, f64)> = vec![];
    for _ in 0..n {
        let f = match r.below(8) {
            0 => 0.0, 1 => r.range(-3, 3) as f64,
            2 if !leaves.is_empty() => { let l = leaves[r.us(leaves.len())].0; (l + *r.pick(&[0.0, 1.0, -1.0, l.abs() * 1e-10, l.abs() * 1e-14])) * if r.chance(1, 2) { -1.0 } else { 1.0 } }
            3 => (r.f01() - 0.5) * pow2(r.range(-30, 30) as i32),
            _ => { let k = 1 + r.below(big); let v = (r.next() >> (64 - k)) as f64; if r.chance(1, 2) { -v } else { v } }
        };
        let re = if r.chance(2, 3) { 0.0 } else { *r.pick(&[1.0, 2.0, 7.0, 64.0, 1000.0]) };
        leaves.push((f, re, if re == 0.0 { 0.0 } else { *r.pick(&[1.0, -1.0, 0.5, 0.0]) * (1.0 - 1e-9) }));
    }
    let ops = (0..1 + r.us(12)).map(|_| (r.below(14 * 7) as u8, if r.chance(1, 2) { r.below(2) as u8 } else { r.below(8) as u8 }, r.below(8) as u8)).collect();
    RobCase { leaves, ops }
}
fn shrink_rob(c: &RobCase) -> Vec<RobCase> {
    let mut v = vec![];
    for i in 0..c.ops.len() { let mut d = c.clone(); d.ops.remove(i); v.push(d); }
    if c.leaves.len() > 1 { for i in 0..c.leaves.len() { let mut d = c.clone(); d.leaves.remove(i); v.push(d); } }
    for i in 0..c.leaves.len() { let (f, re, _) = c.leaves[i]; for g in [0.0, 1.0, -1.0, f.trunc(), (f / 2.0).trunc()] { if g.abs() < f.abs() || (g != f && g.abs() == f.abs() && g > f) { let mut d = c.clone(); d.leaves[i].0 = g; v.push(d); } } if re != 0.0 { let mut d = c.clone(); d.leaves[i].1 = 0.0; d.leaves[i].2 = 0.0; v.push(d); } }
    for i in 0..c.ops.len() { for k in 0..2 { let mut d = c.clone(); let p = if k == 0 { &mut d.ops[i].1 } else { &mut d.ops[i].2 }; if *p > 0 { *p -= 1; v.push(d); } } if c.ops[i].0 >= 14 { let mut d = c.clone(); d.ops[i].0 %= 14; v.push(d); } }
    v
}

pub fn add(v: &mut Vec<Property>) {
    v.push(Property { id: "P18", rule: "some value has more than three words; distinct by operations", assumptions: &["values of at most 48 words", "unsigned leaves fit a signed 64 bit integer"], suites: vec![suite("ops", (8_000_000, 200_000_000), gen_int, check_int, shrink_int)] });
    v.push(Property { id: "P19", rule: "a sum or difference of two values that are not zero; distinct by case", assumptions: &["no division by zero, no square root of a negative value, exponents below 1e9, as documented"], suites: vec![suite("ops", (16_000_000, 400_000_000), gen_exp, check_exp, shrink_exp)] });
    v.push(Property { id: "P20", rule: "a result that is not zero and whose bound is judged; distinct by case", assumptions: &["magnitudes between 1e-90 and 1e90 and bounds up to 2^20 are judged; the rules are first order"], suites: vec![suite("values", (12_000_000, 240_000_000), gen_rob, check_rob, shrink_rob), suite("differences", (12_000_000, 240_000_000), gen_rob, check_dif, shrink_rob)] });
}
