//! Double-double arithmetic (about 106 bits), used by the geometric oracle.
#[derive(Clone, Copy, Debug)]
pub struct Dd { pub h: f64, pub l: f64 }
fn two_sum(a: f64, b: f64) -> (f64, f64) { let s = a + b; let t = s - a; (s, (a - (s - t)) + (b - t)) }
fn quick(a: f64, b: f64) -> Dd { let s = a + b; Dd { h: s, l: b - (s - a) } }
fn split(a: f64) -> (f64, f64) { let t = 134217729.0 * a; let h = t - (t - a); (h, a - h) }
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    if a.abs() > 1e290 || b.abs() > 1e290 { return (p, 0.0); }
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
impl Dd {
    pub const ZERO: Dd = Dd { h: 0.0, l: 0.0 };
    pub fn new(x: f64) -> Dd { Dd { h: x, l: 0.0 } }
    pub fn int(v: i64) -> Dd { let h = v as f64; Dd { h, l: (v as i128 - h as i128) as f64 } }
    pub fn i128(v: i128) -> Dd { let h = v as f64; if h.abs() >= 1.6e38 { return Dd::new(h); } let r = v - h as i128; quick(h, r as f64) }
    pub fn f(self) -> f64 { self.h + self.l }
    pub fn abs(self) -> Dd { if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) { -self } else { self } }
    pub fn sqrt(self) -> Dd {
        if self.h <= 0.0 { return Dd::ZERO; }
        let x = 1.0 / self.h.sqrt();
        let ax = self.h * x;
        let e = (self - Dd::new(ax) * Dd::new(ax)).h * (x * 0.5);
        quick(ax, e)
    }
    pub fn neg_p(self) -> bool { self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) }
    pub fn lt(self, o: Dd) -> bool { (self - o).neg_p() }
}
impl std::ops::Neg for Dd { type Output = Dd; fn neg(self) -> Dd { Dd { h: -self.h, l: -self.l } } }
impl std::ops::Add for Dd { type Output = Dd; fn add(self, o: Dd) -> Dd { let (s, e) = two_sum(self.h, o.h); let (t, f) = two_sum(self.l, o.l); let q = quick(s, e + t); quick(q.h, q.l + f) } }
impl std::ops::Sub for Dd { type Output = Dd; fn sub(self, o: Dd) -> Dd { self + (-o) } }
impl std::ops::Mul for Dd { type Output = Dd; fn mul(self, o: Dd) -> Dd { let (p, e) = two_prod(self.h, o.h); quick(p, e + (self.h * o.l + self.l * o.h)) } }
impl std::ops::Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.h / o.h;
        let r = self - o * Dd::new(q1);
        let q2 = r.h / o.h;
        let r = r - o * Dd::new(q2);
        let q3 = r.h / o.h;
        quick(q1, q2) + Dd::new(q3)
    }
}
