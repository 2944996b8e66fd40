//! Circuits: construction helpers, an independent constraint checker and a propagating witness executor.
use crate::alpha::*;
use crate::*;
use plonky::*;

pub const WIRES: usize = 9;
pub const ROUTED: usize = 6;
pub const GRID: usize = 65;

/// Curve pairs over which proofs are made.
pub trait Hx: HaloCurve + Cx + Default + PartialEq + Eq + serde::Serialize + serde::de::DeserializeOwned where Self::BaseField: Fx, Self::ScalarField: Fx { type Inner: HaloCurve<BaseField = Self::ScalarField>; }
impl Hx for Tweedledee { type Inner = Tweedledum; }
impl Hx for Tweedledum { type Inner = Tweedledee; }
impl Hx for Pallas { type Inner = Vesta; }
impl Hx for Vesta { type Inner = Pallas; }

#[macro_export]
macro_rules! all_pairs { ($f:ident ( $($a:tt)* )) => {
    $f::<plonky::Tweedledee>($($a)*); $f::<plonky::Tweedledum>($($a)*); $f::<plonky::Pallas>($($a)*); $f::<plonky::Vesta>($($a)*);
} }

pub fn wit<F: Field>(w: &Witness<F>, n: usize) -> Vec<Vec<F>> { (0..n).map(|i| (0..WIRES).map(|j| w.get_indices(i, j)).collect()).collect() }

/// All gate constraints of a full assignment: None if they vanish, otherwise the first (gate, constraint).
pub fn gate_violation<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &[Vec<C::ScalarField>]) -> Option<(usize, usize)> {
    let n = c.gate_constants.len();
    for i in 0..n {
        let e = evaluate_all_constraints::<C, I>(&c.gate_constants[i], &w[i], &w[(i + 1) % n], &w[(i + GRID) % n]);
        if let Some(j) = e.iter().position(|x| !x.is_zero()) { return Some((i, j)); }
    }
    None
}
pub fn copy_violation<C: HaloCurve>(c: &Circuit<C>, w: &[Vec<C::ScalarField>]) -> Option<(Wire, Wire)> {
    for i in 0..c.gate_constants.len() {
        for j in 0..ROUTED {
            let a = Wire { gate: i, input: j };
            for t in c.routing_target_partitions.get_partition(Target::Wire(a)) {
                if let Target::Wire(b) = t { if w[b.gate][b.input] != w[i][j] { return Some((a, *b)); } }
            }
        }
    }
    None
}
/// Err with the first violated constraint, unless the assignment satisfies every gate and copy constraint.
pub fn satisfied<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(c: &Circuit<C>, w: &[Vec<C::ScalarField>]) -> R {
    if let Some((i, j)) = gate_violation::<C, I>(c, w) { return Err(format!("gate {} of {}: constraint {} is not satisfied", i, w.len(), j)); }
    if let Some((a, b)) = copy_violation(c, w) { return Err(format!("copy constraint {:?} = {:?} is not satisfied", a, b)); }
    Ok(())
}

/// A small circuit: `pis` public inputs x_0.., secret virtual targets y_0.. and a chain mixing additions,
/// multiplications and constants; returns the targets that must be given values.
pub fn chain<C: HaloCurve>(pis: usize, secrets: usize, pad: usize) -> (Circuit<C>, Vec<Target<C::ScalarField>>) {
    let mut b = CircuitBuilder::<C>::new(128);
    let p = b.add_public_inputs(pis);
    let s = b.add_virtual_targets(secrets);
    let k = b.constant_wire(C::ScalarField::from_canonical_u64(7));
    let mut acc = b.one_wire();
    for (i, t) in p.iter().chain(&s).enumerate() {
        let sq = b.mul(*t, acc);
        acc = if i % 2 == 0 { b.add(sq, k) } else { b.mul_sub(sq, k, *t) };
    }
    for _ in 0..pad { acc = b.square(acc); }
    (b.build(), p.into_iter().chain(s).collect())
}
pub fn inputs<F: Fx>(t: &[Target<F>], salt: u64) -> PartialWitness<F> {
    let mut w = PartialWitness::new();
    for (i, x) in t.iter().enumerate() { w.set_target(*x, generic::<F>(salt * 1000 + i as u64)); }
    w
}
/// Proof of a chain circuit. Honest proving can fail with negligible probability only.
pub fn proof_of<C: Hx>(c: &Circuit<C>, t: &[Target<C::ScalarField>], salt: u64, old: &[OldProof<C>], blind: bool) -> (Proof<C>, Vec<C::ScalarField>)
where C::BaseField: Fx, C::ScalarField: Fx {
    let w = c.generate_witness(inputs(t, salt));
    let p = c.generate_proof::<C::Inner>(&w, old, blind).expect("honest proof");
    let pis = c.get_public_inputs(&w);
    (p, pis)
}

/// The reference curve and generator of the curve whose points live in this circuit's field.
pub fn inner_crv<C: Hx>() -> (refm::Crv, refm::Pt) where C::BaseField: Fx, C::ScalarField: Fx {
    let g = <C::Inner as Curve>::GENERATOR_AFFINE;
    (refm::Crv { p: C::ScalarField::order(), a: <C::Inner as Curve>::A.val(), b: <C::Inner as Curve>::B.val() }, Some((g.x.val(), g.y.val())))
}
/// Shares a circuit between threads. Its generators are plain data without interior mutability, but not declared Sync.
pub struct Sh<T>(pub T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> std::ops::Deref for Sh<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
