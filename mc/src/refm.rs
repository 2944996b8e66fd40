//! Reference models, written over big integers (no code under test).
use num::bigint::BigUint;
use num::{One, Zero};

pub type B = BigUint;
pub fn b(n: u64) -> B { B::from(n) }
pub fn add(x: &B, y: &B, p: &B) -> B { (x + y) % p }
pub fn sub(x: &B, y: &B, p: &B) -> B { ((x + p) - (y % p)) % p }
pub fn mul(x: &B, y: &B, p: &B) -> B { (x * y) % p }
pub fn neg(x: &B, p: &B) -> B { (p - (x % p)) % p }
pub fn inv(x: &B, p: &B) -> B { x.modpow(&(p - 2u32), p) }
pub fn pw(x: &B, e: &B, p: &B) -> B { x.modpow(e, p) }

/// Affine point of y^2 = x^3 + a x + c over F_p; None is the identity.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Crv { pub p: B, pub a: B, pub b: B }
pub type Pt = Option<(B, B)>;
impl Crv {
    pub fn on(&self, q: &Pt) -> bool {
        match q {
            None => true,
            Some((x, y)) => mul(y, y, &self.p) == add(&add(&mul(&mul(x, x, &self.p), x, &self.p), &mul(&self.a, x, &self.p), &self.p), &self.b, &self.p),
        }
    }
    pub fn neg(&self, q: &Pt) -> Pt { q.as_ref().map(|(x, y)| (x.clone(), neg(y, &self.p))) }
    pub fn add(&self, s: &Pt, t: &Pt) -> Pt {
        let p = &self.p;
        match (s, t) {
            (None, _) => t.clone(),
            (_, None) => s.clone(),
            (Some((x1, y1)), Some((x2, y2))) => {
                let l = if x1 == x2 {
                    if add(y1, y2, p).is_zero() { return None; }
                    mul(&add(&mul(&b(3), &mul(x1, x1, p), p), &self.a, p), &inv(&add(y1, y1, p), p), p)
                } else { mul(&sub(y2, y1, p), &inv(&sub(x2, x1, p), p), p) };
                let x3 = sub(&sub(&mul(&l, &l, p), x1, p), x2, p);
                let y3 = sub(&mul(&l, &sub(x1, &x3, p), p), y1, p);
                Some((x3, y3))
            }
        }
    }
    /// Double-and-add in Jacobian coordinates (one inversion at the end); `mul_slow` is the affine definition.
    pub fn mul(&self, k: &B, q: &Pt) -> Pt {
        let p = &self.p;
        let (qx, qy) = match q { None => return None, Some(v) => v };
        let (mut x, mut y, mut z) = (b(1), b(1), b(0));
        for i in (0..k.bits() as usize).rev() {
            if !z.is_zero() {
                if y.is_zero() { z = b(0); } else {
                    let yy = mul(&y, &y, p);
                    let s = mul(&b(4), &mul(&x, &yy, p), p);
                    let zz = mul(&z, &z, p);
                    let m = (b(3) * &x * &x + &self.a * &zz * &zz) % p;
                    let x2 = sub(&mul(&m, &m, p), &((&s * 2u32) % p), p);
                    let y2 = sub(&mul(&m, &sub(&s, &x2, p), p), &((b(8) * &yy * &yy) % p), p);
                    z = (b(2) * &y * &z) % p;
                    x = x2; y = y2;
                }
            }
            if ((k >> i) & B::one()).is_zero() { continue; }
            if z.is_zero() { x = qx.clone(); y = qy.clone(); z = b(1); continue; }
            let zz = mul(&z, &z, p);
            let u2 = mul(qx, &zz, p);
            let s2 = mul(qy, &mul(&zz, &z, p), p);
            if u2 == x {
                // equal or opposite: leave it to the affine law
                let zi = inv(&z, p); let zi2 = mul(&zi, &zi, p);
                let cur = Some((mul(&x, &zi2, p), mul(&y, &mul(&zi2, &zi, p), p)));
                match self.add(&cur, q) { None => { x = b(1); y = b(1); z = b(0); } Some((a, c)) => { x = a; y = c; z = b(1); } }
                continue;
            }
            let h = sub(&u2, &x, p); let r = sub(&s2, &y, p);
            let hh = mul(&h, &h, p); let hhh = mul(&hh, &h, p);
            let v = mul(&x, &hh, p);
            let x3 = sub(&sub(&mul(&r, &r, p), &hhh, p), &((&v * 2u32) % p), p);
            y = sub(&mul(&r, &sub(&v, &x3, p), p), &mul(&y, &hhh, p), p);
            x = x3;
            z = mul(&z, &h, p);
        }
        if z.is_zero() { return None; }
        let zi = inv(&z, p); let zi2 = mul(&zi, &zi, p);
        Some((mul(&x, &zi2, p), mul(&y, &mul(&zi2, &zi, p), p)))
    }
    pub fn mul_slow(&self, k: &B, q: &Pt) -> Pt {
        let mut r: Pt = None;
        let bits = k.bits() as usize;
        for i in (0..bits).rev() {
            r = self.add(&r, &r);
            if !((k >> i) & B::one()).is_zero() { r = self.add(&r, q); }
        }
        r
    }
}

// Polynomials as coefficient lists over F_p.
pub fn ptrim(v: &[B]) -> Vec<B> { let mut v = v.to_vec(); while v.last().map_or(false, |x| x.is_zero()) { v.pop(); } v }
pub fn pmul(x: &[B], y: &[B], p: &B) -> Vec<B> {
    if x.is_empty() || y.is_empty() { return vec![]; }
    let mut r = vec![B::zero(); x.len() + y.len() - 1];
    for (i, a) in x.iter().enumerate() { for (j, c) in y.iter().enumerate() { r[i + j] = add(&r[i + j], &mul(a, c, p), p); } }
    r
}
pub fn padd(x: &[B], y: &[B], p: &B) -> Vec<B> {
    (0..x.len().max(y.len())).map(|i| add(x.get(i).unwrap_or(&B::zero()), y.get(i).unwrap_or(&B::zero()), p)).collect()
}
pub fn peval(x: &[B], at: &B, p: &B) -> B {
    let mut r = B::zero();
    for c in x.iter().rev() { r = add(&mul(&r, at, p), c, p); }
    r
}
pub fn pdivrem(x: &[B], d: &[B], p: &B) -> (Vec<B>, Vec<B>) {
    let d = ptrim(d);
    let mut r = ptrim(x);
    if r.len() < d.len() { return (vec![], r); }
    let li = inv(d.last().unwrap(), p);
    let mut q = vec![B::zero(); r.len() - d.len() + 1];
    while r.len() >= d.len() {
        let k = r.len() - d.len();
        let c = mul(r.last().unwrap(), &li, p);
        for (i, e) in d.iter().enumerate() { r[k + i] = sub(&r[k + i], &mul(&c, e, p), p); }
        q[k] = c;
        let n = r.len() - 1; r.truncate(n);
        r = ptrim(&r);
    }
    (ptrim(&q), r)
}
