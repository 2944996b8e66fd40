//! Operand alphabets: field elements at limb, carry and reduction boundaries; points; scalars.
use num::bigint::BigUint;
use num::{Integer, One, Zero};
use plonky::*;
use std::collections::BTreeSet;

/// Harness view of a prime field: its order (from the literature, not from the code) and its raw limbs.
pub trait Fx: Field {
    const NAME: &'static str;
    const W: usize;
    fn order() -> BigUint;
    fn raw(&self) -> Vec<u64>;
    fn from_raw(v: &[u64]) -> Self;
    /// Value denoted by the Montgomery limbs, computed without the code under test.
    fn val(&self) -> BigUint {
        thread_local!(static C: std::cell::RefCell<std::collections::HashMap<&'static str, BigUint>> = Default::default());
        let ri = C.with(|c| c.borrow_mut().entry(Self::NAME).or_insert_with(|| {
            let p = Self::order();
            let r = (BigUint::one() << (64 * Self::W)) % &p;
            r.modpow(&(&p - 2u32), &p)
        }).clone());
        (big(&self.raw()) * ri) % Self::order()
    }
    /// The element with this value, built without the code under test.
    fn of(v: &BigUint) -> Self {
        let p = Self::order();
        Self::from_raw(&limbs(&(((v % &p) << (64 * Self::W)) % &p), Self::W))
    }
    fn reduced(&self) -> bool { big(&self.raw()) < Self::order() }
    fn u(n: u64) -> Self { Self::of(&BigUint::from(n)) }
}

pub fn big(v: &[u64]) -> BigUint {
    let mut d = vec![];
    for x in v { d.push(*x as u32); d.push((*x >> 32) as u32); }
    BigUint::new(d)
}
pub fn limbs(b: &BigUint, w: usize) -> Vec<u64> {
    let d = b.to_u32_digits();
    (0..w).map(|i| *d.get(2 * i).unwrap_or(&0) as u64 | (*d.get(2 * i + 1).unwrap_or(&0) as u64) << 32).collect()
}
pub fn hex(s: &str) -> BigUint { BigUint::parse_bytes(s.as_bytes(), 16).unwrap() }

macro_rules! fx {
    ($t:ident, $w:expr, $hex:expr) => {
        impl Fx for $t {
            const NAME: &'static str = stringify!($t);
            const W: usize = $w;
            fn order() -> BigUint {
                thread_local!(static P: BigUint = hex($hex));
                P.with(|p| p.clone())
            }
            fn raw(&self) -> Vec<u64> { self.limbs.to_vec() }
            fn from_raw(v: &[u64]) -> Self {
                let mut l = [0u64; $w];
                l.copy_from_slice(v);
                $t { limbs: l }
            }
        }
    };
}
fx!(PallasBase, 4, "40000000000000000000000000000000224698fc094cf91b992d30ed00000001");
fx!(VestaBase, 4, "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001");
fx!(TweedledumBase, 4, "40000000000000000000000000000000038aa1276c3f59b9a14064e200000001");
fx!(TweedledeeBase, 4, "40000000000000000000000000000000038aa127696286c9842cafd400000001");
fx!(Bls12377Scalar, 4, "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001");
fx!(Bls12377Base, 6, "1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001");

/// All limb vectors over `per` (per limb) that are below the order.
pub fn cross<F: Fx>(per: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let p = F::order();
    let mut out: Vec<Vec<u64>> = vec![vec![]];
    for c in per {
        let mut n = vec![];
        for o in &out { for x in c { let mut o2 = o.clone(); o2.push(*x); n.push(o2); } }
        out = n;
    }
    out.retain(|v| big(v) < p);
    out
}
pub fn per_limb<F: Fx>(base: &[u64], with_order: bool) -> Vec<Vec<u64>> {
    let p = limbs(&F::order(), F::W);
    (0..F::W).map(|i| {
        let mut s: BTreeSet<u64> = base.iter().cloned().collect();
        if with_order { for d in [p[i], p[i].wrapping_sub(1), p[i].wrapping_add(1)].iter() { s.insert(*d); } s.insert(p[i] >> 1); }
        if i == F::W - 1 { // keep the top limb near or below the order's
            let t = p[i];
            s = s.into_iter().filter(|x| *x <= t).collect();
            s.insert(t); s.insert(t - 1); s.insert(t / 2); s.insert(1); s.insert(0);
        }
        s.into_iter().collect()
    }).collect()
}

/// Integer values (below the order) worth trying as canonical values.
pub fn values<F: Fx>() -> Vec<BigUint> {
    let p = F::order();
    let mut s: BTreeSet<BigUint> = BTreeSet::new();
    let bits = p.bits() as usize;
    for k in 0..12u32 { s.insert(BigUint::from(k)); s.insert(&p - 1u32 - k); s.insert((&p >> 1usize) + k); s.insert((&p >> 1usize) - k); }
    for k in 0..bits {
        let t = BigUint::one() << k;
        s.insert(t.clone()); s.insert(&t - 1u32); s.insert(&t + 1u32); s.insert(&p - &t);
    }
    for i in 1..F::W { // bit patterns crossing limb boundaries
        for a in [0x1234_5678_9abc_def0u64, u64::max_value(), 0x8000_0000_0000_0000, 0xffff_ffff, 0x1_0000_0000].iter() {
            s.insert(BigUint::from(*a) << (64 * (i - 1) + 32));
        }
    }
    for q in [3u32, 5, 7, 11, 13].iter() { s.insert(&p / q); s.insert(BigUint::from(*q).modpow(&(&p - 2u32), &p)); }
    s.into_iter().filter(|x| x < &p).collect()
}

/// Small alphabet for pairs and circuits: boundary values.
pub fn small<F: Fx>() -> Vec<F> {
    let p = F::order();
    let b = |n: u64| BigUint::from(n);
    let mut v = vec![b(0), b(1), b(2), b(3), b(4), b(5), &p - 1u32, &p - 2u32, &p >> 1usize, (&p >> 1usize) + 1u32,
        b(u64::max_value()), BigUint::one() << 64usize, (BigUint::one() << 128usize) - 1u32, BigUint::one() << 128usize,
        hex("123456789abcdef0fedcba9876543210deadbeefcafebabe")];
    v.retain(|x| x < &p);
    v.dedup();
    v.iter().map(|x| F::of(x)).collect()
}

/// Deterministic pseudo-random values from a counter (splitmix); used as fixed representatives of "generic" operands.
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn generic<F: Fx>(i: u64) -> F {
    let v: Vec<u64> = (0..F::W as u64 + 1).map(|k| mix(i.wrapping_mul(131).wrapping_add(k).wrapping_add(0x5151))).collect();
    F::of(&(big(&v) % F::order()))
}

/// Large alphabet of raw (Montgomery) representations for unary operations.
pub fn raw_unary<F: Fx>() -> Vec<F> {
    let base: &[u64] = if F::W == 4 {
        &[0, 1, 2, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x5555_5555_5555_5555, u64::max_value() - 1, u64::max_value()]
    } else { &[0, 1, 0x8000_0000_0000_0000, u64::max_value()] };
    let mut v: Vec<Vec<u64>> = cross::<F>(&per_limb::<F>(base, F::W == 4));
    for x in values::<F>() { v.push(limbs(&x, F::W)); v.push(F::of(&x).raw()); }
    for i in 0..500 { v.push(generic::<F>(i).raw()); }
    v.sort(); v.dedup();
    v.iter().map(|x| F::from_raw(x)).collect()
}
/// Alphabet for pairs.
pub fn raw_pairs<F: Fx>(n_generic: u64) -> Vec<F> {
    let base: &[u64] = if F::W == 4 { &[0, 1, 0x8000_0000_0000_0000, u64::max_value()] } else { &[0, u64::max_value()] };
    let mut v: Vec<Vec<u64>> = cross::<F>(&per_limb::<F>(base, false));
    let p = F::order();
    for k in 0..4u32 {
        for x in [BigUint::from(k), &p - 1u32 - k, (&p >> 1usize) + k, (&p >> 1usize) - k].iter() {
            v.push(limbs(x, F::W)); v.push(F::of(x).raw());
        }
    }
    for k in (0..p.bits() as usize).step_by(16) {
        for d in 0..2u32 { let x = (BigUint::one() << k) - d; v.push(limbs(&x, F::W)); v.push(F::of(&x).raw()); v.push(limbs(&(&p - &x), F::W)); }
    }
    for i in 0..n_generic { v.push(generic::<F>(1000 + i).raw()); }
    v.retain(|x| big(x) < p);
    v.sort(); v.dedup();
    v.iter().map(|x| F::from_raw(x)).collect()
}

pub fn is_zero(b: &BigUint) -> bool { b.is_zero() }
pub fn divides(a: &BigUint, b: &BigUint) -> bool { b.is_multiple_of(a) }

/// Harness view of a curve.
pub trait Cx: Curve where Self::BaseField: Fx, Self::ScalarField: Fx { const CNAME: &'static str; }
impl Cx for Pallas { const CNAME: &'static str = "Pallas"; }
impl Cx for Vesta { const CNAME: &'static str = "Vesta"; }
impl Cx for Tweedledee { const CNAME: &'static str = "Tweedledee"; }
impl Cx for Tweedledum { const CNAME: &'static str = "Tweedledum"; }
impl Cx for Bls12377 { const CNAME: &'static str = "Bls12377"; }

#[macro_export]
macro_rules! all_fields { ($f:ident ( $($a:tt)* )) => {
    $f::<plonky::PallasBase>($($a)*); $f::<plonky::VestaBase>($($a)*); $f::<plonky::TweedledeeBase>($($a)*);
    $f::<plonky::TweedledumBase>($($a)*); $f::<plonky::Bls12377Base>($($a)*); $f::<plonky::Bls12377Scalar>($($a)*);
} }
#[macro_export]
macro_rules! all_curves { ($f:ident ( $($a:tt)* )) => {
    $f::<plonky::Pallas>($($a)*); $f::<plonky::Vesta>($($a)*); $f::<plonky::Tweedledee>($($a)*);
    $f::<plonky::Tweedledum>($($a)*); $f::<plonky::Bls12377>($($a)*);
} }
