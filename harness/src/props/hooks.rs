//! P21 (expressions with square roots) and P22 (circle events): need the guarded hooks.
use crate::big::*;
use crate::dd::Dd;
use crate::diag::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::rng::*;
use boostvoronoi_core::verif_hooks as vh;
use boostvoronoi_ext::extended_int::ExtendedInt;
use serde::{Deserialize, Serialize};

// ---- P21 ----------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExprCase { pub form: u8, /** sign and words of each value, low word first */ pub a: Vec<(bool, Vec<u32>)>, pub b: Vec<Vec<u32>>, /** sign of the third root argument (form 6) */ pub b2neg: bool }
fn ei(neg: bool, w: &[u32]) -> ExtendedInt {
    let sep = ExtendedInt::from(1i64 << 32);
    let mut r = ExtendedInt::from(0);
    for w in w.iter().rev() { r = &r * &sep + &ExtendedInt::from(*w); }
    if neg { -r } else { r }
}
fn mk(neg: bool, w: &[u32]) -> Big { let mut d = w.to_vec(); while d.last() == Some(&0) { d.pop(); } Big { neg: neg && !d.is_empty(), d } }
/// sum of a_i * sqrt(b_i) in units of 2^-k, and a bound of its error in those units
fn sum(t: &[(Big, Big)], k: usize) -> (Big, Big) {
    let (mut v, mut e) = (Big::zero(), Big::zero());
    for (a, b) in t { v = v.add(&a.mul(&b.shl(2 * k).isqrt())); e = e.add(&a.abs()); }
    (v, e)
}
/// the value of an expression to at least 60 bits, or exactly zero: (value, k, is zero)
fn evaluate(plain: &[(Big, Big)], nested: Option<(&Big, &Big, &Big, &Big)>) -> (Big, usize) {
    let mut m = 8;
    for (a, b) in plain { m = m.max(a.bits() + b.bits() / 2 + 2); }
    if let Some((a, b3, b01, b2)) = nested { m = m.max(a.bits() + (b3.bits() + b2.bits().max(b01.bits() / 2) + 2) / 2 + 2); }
    // sums of so many roots that are not zero are at least this large
    let deep = 16 * (m + 4);
    let mut k = 96;
    loop {
        let (mut v, mut e) = sum(plain, k);
        if let Some((a, b3, b01, b2)) = nested {
            let x = b01.shl(4 * k).isqrt().add(&b2.shl(2 * k)).mul(b3);
            let x = if x.sign() < 0 { Big::zero() } else { x };
            v = v.add(&a.mul(&x.shl(0).isqrt()));
            e = e.add(&a.abs().mul(&b3.isqrt().add(&Big::int(3))));
        }
        e = e.add(&Big::int(1));
        if e.shl(60).lt(&v.abs()) { return (v, k); }
        if k > deep { return (Big::zero(), 0); }
        k = if k * 4 > deep { deep + 1 } else { k * 4 };
    }
}
fn check_expr(c: &ExprCase, o: &mut Obs) -> Res {
    let n = match c.form { 1..=4 => c.form as usize, _ => 4 };
    if c.a.len() < n || c.b.len() < n { return Ok(()); }
    let a: Vec<Big> = c.a[..n].iter().map(|(s, w)| mk(*s, w)).collect();
    let mut b: Vec<Big> = c.b[..n].iter().map(|w| mk(false, w)).collect();
    let mut eb: Vec<ExtendedInt> = c.b[..n].iter().map(|w| ei(false, w)).collect();
    let ea: Vec<ExtendedInt> = c.a[..n].iter().map(|(s, w)| ei(*s, w)).collect();
    let t = |i: usize| (a[i].clone(), b[i].clone());
    let (v, k, lim) = match c.form {
        1..=4 => { let t: Vec<_> = (0..n).map(t).collect(); let (v, k) = evaluate(&t, None); (v, k, [0.0, 4.0, 7.0, 16.0, 25.0][n]) }
        5 => {
            b[2] = Big::int(1); eb[2] = ExtendedInt::from(1);
            b[3] = b[0].mul(&b[1]); eb[3] = &eb[0] * &eb[1];
            let t: Vec<_> = (0..4).map(|i| (a[i].clone(), b[i].clone())).collect();
            let (v, k) = evaluate(&t, None);
            (v, k, 16.0)
        }
        _ => {
            // the inner root may not be negative
            let b01 = b[0].mul(&b[1]);
            if c.b2neg { let r = b01.isqrt(); if r.lt(&b[2]) { b[2] = r.neg(); eb[2] = ei(true, &b[2].d); } else { b[2] = b[2].neg(); eb[2] = -eb[2].clone(); } }
            let t = [(a[0].clone(), b[0].clone()), (a[1].clone(), b[1].clone()), (a[3].clone(), Big::int(1))];
            let (v, k) = evaluate(&t, Some((&a[2], &b[3], &b01, &b[2])));
            (v, k, 25.0)
        }
    };
    let r = vh::sqrt_expr(c.form, &ea, &eb);
    let what = || format!("form {} of {:?}", c.form, c);
    let sign = if r.is_pos() { 1 } else if r.is_neg() { -1 } else { 0 };
    ensure!(r.val().is_finite(), "expr-value", "{}: {r:?}", what());
    ensure!(sign == v.sign(), "expr-sign", "{}: the result {r:?} has sign {sign}, the value {}", what(), v.sign());
    o.sub += 1;
    if v.is_zero() { o.label("exactly zero"); o.nontrivial = n > 1; return Ok(()); }
    let (m, e) = v.approx();
    let d = r.exp() as i64 - (e - k as i64);
    let err = if d.abs() > 4 { f64::INFINITY } else { ((Dd::new(r.val() * pow2(d as i32)) - m).abs() / m.abs()).f() };
    ensure!(err <= lim * 2.220446049250313e-16, "expr-error", "{}: the result {r:?} is off by {:.2} EPS, allowed {lim}", what(), err / 2.220446049250313e-16);
    // how much was lost by cancellation
    let big = (0..n).filter(|i| c.form != 6 || *i != 2).map(|i| a[i].mul(&b[i].shl(2 * k).isqrt()).bits()).max().unwrap_or(0);
    let lost = big as i64 - v.bits() as i64;
    if lost > 20 { o.label("cancellation over 20 bits"); }
    if lost > 60 { o.label("cancellation over 60 bits"); }
    if n > 1 && lost > 2 { o.nontrivial = true; }
    o.label(["", "one root", "two roots", "three roots", "four roots", "point, two segments (3)", "point, two segments (4)"][c.form as usize % 7]);
    Ok(())
}
fn gen_big(r: &mut Rng, bits: usize) -> Big { let n = r.us(bits + 1); let d = (0..n.div_ceil(32)).map(|_| r.next() as u32).collect::<Vec<_>>(); let b = mk(false, &d); let x = b.bits(); if x > n { b.shr(x - n) } else { b } }
fn gen_expr(r: &mut Rng) -> ExprCase {
    let form = *r.pick(&[1u8, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 6, 6]);
    let n = if form <= 4 { form as usize } else { 4 };
    let ab = *r.pick(&[4usize, 16, 31, 64, 130]);
    let bb = *r.pick(&[4usize, 16, 62, 64, 130]);
    let mut a: Vec<Big> = (0..n).map(|_| { let v = gen_big(r, ab); if r.chance(1, 2) { v.neg() } else { v } }).collect();
    let mut b: Vec<Big> = (0..n).map(|_| match r.below(6) { 0 => { let v = gen_big(r, bb / 2); v.mul(&v) } 1 => Big::int(r.range(0, 3)), _ => gen_big(r, bb) }).collect();
    if form == 5 { b[2] = Big::int(1); b[3] = b[0].mul(&b[1]); }
    let b2neg = r.chance(1, 2);
    // arguments that share a root with another
    if r.chance(1, 3) && n > 1 && form <= 4 { let (i, j) = (r.us(n), r.us(n)); let c = gen_big(r, 8).add(&Big::int(1)); if i != j { b[i] = b[j].mul(&c).mul(&c); if r.chance(1, 2) { a[j] = a[i].mul(&c).neg(); if r.chance(1, 2) { a[j] = a[j].add(&Big::int(r.range(-1, 1))); } } } }
    // one factor chosen so that the sum nearly vanishes
    if r.chance(2, 3) && n > 1 {
        let i = if form == 6 { *r.pick(&[0usize, 1, 3, 3]) } else { r.us(n) };
        let bi = if form == 6 && i == 3 { Big::int(1) } else { b[i].clone() };
        if !bi.is_zero() {
            let k = 64;
            let t: Vec<_> = (0..n).filter(|j| *j != i && !(form == 6 && *j == 2)).map(|j| (a[j].clone(), if form == 6 && j == 3 { Big::int(1) } else { b[j].clone() })).collect();
            let mut s = sum(&t, k).0;
            if form == 6 { let b01 = b[0].mul(&b[1]); let rt = b01.isqrt(); let b2 = if b2neg { if rt.lt(&b[2]) { rt.neg() } else { b[2].neg() } } else { b[2].clone() }; let x = b01.shl(4 * k).isqrt().add(&b2.shl(2 * k)).mul(&b[3]); if x.sign() > 0 { s = s.add(&a[2].mul(&x.isqrt())); } }
            let q = s.div(&bi.shl(2 * k).isqrt());
            a[i] = q.neg();
            if r.chance(1, 3) { a[i] = a[i].add(&Big::int(r.range(-2, 2))); }
        }
    }
    if form == 6 && r.chance(1, 4) { a[3] = Big::zero(); }
    ExprCase { form, a: a.into_iter().map(|x| (x.neg, x.d)).collect(), b: b.into_iter().map(|x| x.d).collect(), b2neg }
}
fn shrink_expr(c: &ExprCase) -> Vec<ExprCase> {
    let mut v = vec![];
    let half = |w: &Vec<u32>| mk(false, w).shr(1).d;
    for i in 0..c.a.len() { if !c.a[i].1.is_empty() { for k in 0..3 { let mut d = c.clone(); d.a[i].1 = match k { 0 => vec![], 1 => half(&c.a[i].1), _ => mk(false, &c.a[i].1).sub(&Big::int(1)).d }; v.push(d); } } }
    for i in 0..c.b.len() { if !c.b[i].is_empty() { for k in 0..4 { let mut d = c.clone(); d.b[i] = match k { 0 => vec![], 1 => vec![1], 2 => half(&c.b[i]), _ => mk(false, &c.b[i]).sub(&Big::int(1)).d }; if d.b[i] != c.b[i] { v.push(d); } } } }
    v
}

// ---- P22 ----------------------------------------------------------------------------------
fn dist(s: &vh::Site, c: [f64; 2]) -> Dd {
    let d = |p: [i64; 2]| [Dd::new(c[0]) - Dd::int(p[0]), Dd::new(c[1]) - Dd::int(p[1])];
    let q = d(s.ends[0]);
    if !s.segment { return (q[0] * q[0] + q[1] * q[1]).sqrt(); }
    let u = [Dd::int(s.ends[1][0] - s.ends[0][0]), Dd::int(s.ends[1][1] - s.ends[0][1])];
    (u[0] * q[1] - u[1] * q[0]).abs() / (u[0] * u[0] + u[1] * u[1]).sqrt()
}
type D2 = [Dd; 2];
fn dsub(a: D2, b: D2) -> D2 { [a[0] - b[0], a[1] - b[1]] }
fn ddot(a: D2, b: D2) -> Dd { a[0] * b[0] + a[1] * b[1] }
fn pt2(p: [i64; 2]) -> D2 { [Dd::int(p[0]), Dd::int(p[1])] }
/// The circle through the three sites next to the given one, by Newton's method: centre and lowest x.
/// None where the equations are singular or do not settle.
fn refine(s: &[vh::Site; 3], c: [f64; 3]) -> Option<([Dd; 3], f64)> {
    let mut q: D2 = [Dd::new(c[0]), Dd::new(c[1])];
    // a point on the line of a segment: the centre is on the normal there
    let dir = |s: &vh::Site| -> D2 { let d = dsub(pt2(s.ends[1]), pt2(s.ends[0])); let n = ddot(d, d).sqrt(); [d[0] / n, d[1] / n] };
    let on = |p: &vh::Site, s: &vh::Site| !p.segment && s.segment && orient(s.ends[0], s.ends[1], p.ends[0]) == 0;
    let mut normals: Vec<(usize, usize)> = vec![];
    for i in 0..3 { for j in 0..3 { if on(&s[i], &s[j]) { normals.push((i, j)); } } }
    if normals.len() == 2 && normals[0].0 == normals[1].0 { let p = pt2(s[normals[0].0].ends[0]); return Some(([p[0], p[1], p[0]], 0.0)); }
    if normals.len() > 1 { return None; }
    let mut last = f64::INFINITY; let mut done = false;
    for _ in 0..8 {
        // distances and their gradients
        let mut d = [Dd::ZERO; 3]; let mut u = [[Dd::ZERO; 2]; 3];
        for k in 0..3 {
            let v = dsub(q, pt2(s[k].ends[0]));
            if s[k].segment {
                let t = dir(&s[k]); let n = [-t[1], t[0]]; let x = ddot(v, n);
                if x.neg_p() { d[k] = -x; u[k] = [-n[0], -n[1]]; } else { d[k] = x; u[k] = n; }
            } else { d[k] = ddot(v, v).sqrt(); if d[k].f() == 0.0 { return None; } u[k] = [v[0] / d[k], v[1] / d[k]]; }
        }
        let (e0, g0, e1, g1, r) = if let Some(&(p, l)) = normals.first() {
            let t = dir(&s[l]); let o = 3 - p - l;
            (ddot(dsub(q, pt2(s[p].ends[0])), t), t, d[o] - d[p], dsub(u[o], u[p]), d[p])
        } else { (d[1] - d[0], dsub(u[1], u[0]), d[2] - d[0], dsub(u[2], u[0]), d[0]) };
        let det = g0[0] * g1[1] - g0[1] * g1[0];
        if det.f() == 0.0 { return None; }
        let dx = (e0 * g1[1] - e1 * g0[1]) / det;
        let dy = (g0[0] * e1 - g1[0] * e0) / det;
        q = [q[0] - dx, q[1] - dy];
        let step = dx.f().abs() + dy.f().abs(); if done { return Some(([q[0], q[1], q[0] + r], (c[0].abs() + c[1].abs() + r.f()) / det.f().abs())); }
        if !step.is_finite() { return None; }
        if step <= 1e-22 * (c[0].abs() + c[1].abs() + r.f()) { done = true; }
        if step > last * 0.5 && step > 1e-12 * (c[0].abs() + c[1].abs() + r.f()) { return None; }
        last = step;
    }
    None
}
fn check_circles(g: &Geo, _: f64, o: &mut Obs) -> Res {
    vh::start();
    let d = build::<i32, f64>(g);
    let log = vh::stop();
    let d = d?;
    let m = g.s.iter().flatten().chain(g.p.iter().flatten()).fold(1i64, |m, v| m.max(v.abs())) as f64;
    let mut kinds = 0;
    for r in &log {
        let vh::Record::Circle(s, [x, y, lx]) = r;
        o.sub += 1;
        kinds |= 1 << s.iter().filter(|s| s.segment).count();
        o.label(["three points", "two points, a segment", "a point, two segments", "three segments"][s.iter().filter(|s| s.segment).count()]);
        ensure!(x.is_finite() && y.is_finite() && lx.is_finite(), "circle-finite", "{r:?}");
        let rad = Dd::new(*lx) - Dd::new(*x);
        let scale = m + x.abs() + y.abs() + lx.abs();
        let tol = super::structure::CIRCLE_TOL * scale;
        for s in s {
            let e = (dist(s, [*x, *y]) - rad).abs().f();
            ensure!(e <= tol, "circle-touch", "the circle at ({x:e}, {y:e}) to {lx:e} misses {s:?} by {e:e} (allowed {tol:e}): {r:?}");
        }
        // each value by itself: small ones are as accurate as large ones
        match refine(s, [*x, *y, *lx]) {
            None => o.label("no independent solution"),
            Some((t, noise)) => {
                o.label("solved independently");
                for (k, v) in [*x, *y, *lx].into_iter().enumerate() {
                    let e = (t[k] - Dd::new(v)).abs().f();
                    let allowed = 64.0 * f64::EPSILON * t[k].f().abs() + 4e-30 * noise + 1e-28 * scale;
                    ensure!(e <= allowed, "circle-value", "{} of the circle is {v:e}, solved independently {:e}: {e:e} apart (allowed {allowed:e}): {r:?}", ["x", "y", "lowest x"][k], t[k].f());
                }
            }
        }
    }
    // every vertex comes from a circle event
    let have: std::collections::HashSet<(u64, u64)> = log.iter().map(|vh::Record::Circle(_, c)| ((c[0] + 0.0).to_bits(), (c[1] + 0.0).to_bits())).collect();
    let inner = d.verts.iter().filter(|v| have.contains(&((v.x + 0.0).to_bits(), (v.y + 0.0).to_bits()))).count();
    if inner > 0 { o.label("vertices from circles"); }
    o.nontrivial = log.len() >= 2 && kinds & !1 != 0;
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PredCase { pub p: [[i64; 2]; 3], pub f: [f64; 2], pub ulps: u64 }
fn check_pred(c: &PredCase, o: &mut Obs) -> Res {
    let [p, q, r] = c.p;
    let d = |a: i64, b: i64| (a - b) as i128;
    let x = d(p[0], q[0]) * d(q[1], r[1]) - d(p[1], q[1]) * d(q[0], r[0]);
    let got = vh::orientation(c.p);
    ensure!(got as i128 == x.signum(), "orientation", "orientation of {:?} is {got}, the cross product is {x}", c.p);
    if x == 0 { o.label("collinear"); } else if x.abs() <= 2 { o.label("nearly collinear"); }
    // order of the floats with the same number of values between them
    let key = |f: f64| -> i128 { let b = f.to_bits(); if b >> 63 == 1 { -((b & !(1 << 63)) as i128) } else { b as i128 } };
    let k = key(c.f[0]) - key(c.f[1]);
    let want = if k.unsigned_abs() <= c.ulps as u128 { 0 } else { k.signum() };
    let got = vh::ulp_comparison(c.f[0], c.f[1], c.ulps) as i32 as i128;
    ensure!(got == want, "ulps", "comparison of {:e} and {:e} within {} ulps is {got}, {k} apart", c.f[0], c.f[1], c.ulps);
    if k != 0 && k.abs() < 200 { o.label("floats within 200 ulps"); }
    o.sub += 2;
    o.nontrivial = p != q && q != r && p != r;
    Ok(())
}
fn gen_pred(r: &mut Rng) -> PredCase {
    let k = *r.pick(&[2u32, 5, 15, 30, 31]);
    let lim = (1i64 << k) - 1;
    let mut pt = |r: &mut Rng| [r.range(-lim, lim), r.range(-lim, lim)];
    let (p, q) = (pt(r), pt(r));
    let mut s = pt(r);
    // on, or one off, the line of the first two
    if r.chance(2, 3) { let g = { let (mut a, mut b) = ((q[0] - p[0]).abs(), (q[1] - p[1]).abs()); while b > 0 { (a, b) = (b, a % b); } a.max(1) }; let u = [(q[0] - p[0]) / g, (q[1] - p[1]) / g]; let t = r.range(-3 - g / 2, 3 + g / 2); s = [p[0] + t * u[0] + r.range(-1, 1), p[1] + t * u[1] + r.range(-1, 1)]; for v in s.iter_mut() { *v = (*v).clamp(-2147483648, 2147483647); } }
    let mut v = [p, q, s];
    r.shuffle(&mut v);
    let a = match r.below(6) { 0 => 0.0, 1 => f64::from_bits(r.below(100)), 2 => (r.f01() - 0.5) * 1e-300, 3 => r.range(-1000, 1000) as f64, _ => (r.f01() - 0.5) * pow2(r.range(-100, 100) as i32) };
    let b = match r.below(6) { 0 => -a, 1 => (r.f01() - 0.5) * 1000.0, 2 => -f64::from_bits(r.below(100)), _ => { let k = r.range(-140, 140); let b = (a.to_bits() & !(1 << 63)) as i64 + k; let b = f64::from_bits(b.unsigned_abs()); if a.is_sign_negative() { -b } else { b } } };
    let f = if r.chance(1, 2) { [a, b] } else { [b, a] };
    PredCase { p: v, f, ulps: *r.pick(&[0u64, 1, 4, 64, 128]) }
}
fn shrink_pred(c: &PredCase) -> Vec<PredCase> {
    let mut v = vec![];
    for i in 0..3 { for k in 0..2 { let x = c.p[i][k]; for y in [0, x / 2, x - x.signum()] { if y != x { let mut d = c.clone(); d.p[i][k] = y; v.push(d); } } } }
    for i in 0..2 { let x = c.f[i]; for y in [0.0, 1.0, x.trunc()] { if y != x && !(x == 0.0 || x == 1.0) { let mut d = c.clone(); d.f[i] = y; v.push(d); } } }
    v
}
pub fn add(v: &mut Vec<Property>) {
    v.push(Property { id: "P21", rule: "more than one root and some cancellation, or a value of exactly zero; distinct by case", assumptions: &["arguments of roots are not negative; factors up to 130 bits before cancellation is arranged", "bounds are the documented 4, 7, 16 and 25 EPS; 16 and 25 for the two special forms"], suites: vec![suite("expressions", (3_000_000, 60_000_000), gen_expr, check_expr, shrink_expr)] });
    let mut s = super::structure::over_domains(1.5, &[], check_circles);
    s.push(suite("orientation", (3_000_000, 60_000_000), gen_pred, check_pred, shrink_pred));
    v.push(Property { id: "P22", rule: "at least two circle events, one of them with a segment; or three distinct points; distinct by case", assumptions: &["coordinates as for P01"], suites: s });
}
