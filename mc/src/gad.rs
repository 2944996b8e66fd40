//! Circuits of gadgets with values for their inputs.
use crate::alpha::*;
use crate::circ::*;
use crate::*;
use plonky::*;

type S<C> = <C as Curve>::ScalarField;
type T<C> = Target<S<C>>;
fn f1<F: Field>() -> F { <F as Field>::ONE }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G { Arith, Copies, Consts, Bits, Big, Div, Foreign, Order, Rescue, CurveAdd, CurveDbl, CurveMul, Hints, Exp, RawGates }
use G::*;
pub const SMALL: [G; 11] = [Arith, Copies, Consts, Bits, Rescue, CurveAdd, CurveDbl, Hints, Big, Exp, RawGates];
pub const LARGE: [G; 4] = [Order, Div, Foreign, CurveMul];

pub struct Case<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { pub b: CircuitBuilder<C>, pub inp: Vec<(T<C>, S<C>)>, pub pis: Vec<(T<C>, S<C>)> }
impl<C: Hx> Case<C> where C::BaseField: Fx, C::ScalarField: Fx {
    pub fn new(pis: usize, val: &dyn Fn(usize) -> S<C>) -> Self {
        let mut b = CircuitBuilder::<C>::new(128);
        let p = b.add_public_inputs(pis);
        Case { b, inp: vec![], pis: p.into_iter().enumerate().map(|(i, t)| (t, val(i))).collect() }
    }
    /// A public input if there is one, otherwise a secret.
    pub fn input(&mut self, i: usize) -> (T<C>, S<C>) {
        if !self.pis.is_empty() { return self.pis[i % self.pis.len()]; }
        self.secret(generic::<S<C>>(77 + i as u64))
    }
    pub fn secret(&mut self, v: S<C>) -> (T<C>, S<C>) { let t = self.b.add_virtual_target(); self.inp.push((t, v)); (t, v) }
    pub fn point(&mut self, k: u64) -> AffinePointTarget<C::Inner> {
        let g = <C::Inner as Curve>::GENERATOR_PROJECTIVE;
        let mut q = g; for _ in 1..k { q = q + g; }
        let q = q.to_affine();
        let t = self.b.add_virtual_point_target::<C::Inner>();
        self.inp.push((t.x, q.x)); self.inp.push((t.y, q.y));
        t
    }
    pub fn gadget(&mut self, g: G) {
        let (x, xv) = self.input(0);
        let (y, yv) = self.input(1);
        let b = &mut self.b;
        match g {
            Arith => { let p = b.mul(x, y); let s = b.add(p, x); let d = b.sub(s, y); let m = b.mul_sub(d, x, y); let a = b.mul_add(m, m, d); b.neg(a); b.square(a); b.double(a); }
            Copies => {
                let g = b.num_gates();
                for k in 0..3 { b.add_gate_no_constants(BufferGate::new(g + k)); }
                for k in 0..3 { for j in 0..ROUTED { b.copy(if (j + k) % 3 == 0 { x } else { y }, Target::Wire(Wire { gate: g + k, input: j })); } }
                let (z, _) = self.secret(xv); self.b.copy(z, x);
                let (z, _) = self.secret(xv); self.b.copy(z, x);
                let _ = yv;
            }
            Consts => { let o = b.one_wire(); let z = b.zero_wire(); let n = b.neg_one_wire(); let k = b.constant_wire(generic::<S<C>>(5)); let u = b.constant_wire_u32(u32::max_value()); let a = b.add_many(&[o, z, n, k, u]); b.mul(a, x); }
            Bits => { for v in vec![S::<C>::ZERO, f1()] { let (t, _) = self.secret(v); self.b.assert_binary(t); let n = self.b.not(t); self.b.select(n, x, y); }
                let l: Vec<_> = (0..4u64).map(|v| self.secret(S::<C>::from_canonical_u64(v)).0).collect(); self.b.assert_all_base_4(&l);
                let (o, _) = self.secret(f1()); self.b.assert_one(o); let (z, _) = self.secret(S::<C>::ZERO); self.b.assert_zero(z); }
            Hints => { let z = b.is_zero(x); b.is_nonzero(y); b.is_equal(x, y); b.is_equal(x, x); b.not(z); let (s, _) = self.secret(generic::<S<C>>(9) + f1()); self.b.assert_nonzero(s); self.b.inv(s); self.b.div(x, s); }
            Exp => { b.exp_constant_usize(x, 11); b.exp_constant(y, S::<C>::from_canonical_u64(5)); b.exp_constant_usize(x, 0); }
            Rescue => { b.rescue_hash_n_to_1(&[x, y, x]); }
            CurveAdd => { let (p, q) = (self.point(2), self.point(5)); self.b.curve_assert_valid(p); let r = self.b.curve_add(p, q); let n = self.b.curve_neg(r); self.b.curve_sub(r, p); self.b.curve_assert_valid(n); }
            CurveDbl => { let p = self.point(3); let r = self.b.curve_double(p); self.b.curve_double(r); let k = self.b.constant_affine_point(<C::Inner as Curve>::GENERATOR_AFFINE); self.b.curve_double(k); }
            CurveMul => { let p = self.point(3); let r = self.b.curve_mul(CurveMulOp { scalar: x, point: p }); self.b.curve_assert_valid(r); }
            Big => { let m = crate::refm::b(1000); let p = b.add_virtual_bigint_target(&m, true); let l = p.limbs.clone(); for (i, t) in l.iter().enumerate() { self.inp.push((*t, if i == 0 { S::<C>::from_canonical_u64(999) } else { S::<C>::ZERO })); } let s = self.b.bigint_add(&p, &p); self.b.bigint_mul(&s, &p); }
            Order => { let k = b.ordering_lt(); b.ordering_assert_valid(k); let p = b.constant_bigint(&crate::refm::b(3)); let q = b.constant_bigint(&(crate::refm::b(1) << 90)); b.bigint_cmp(&p, &q); }
            Div => { let p = b.constant_bigint(&((crate::refm::b(1) << 100) + 17u32)); let q = b.constant_bigint(&crate::refm::b(12345)); b.bigint_div_rem(&p, &q); }
            Foreign => { let v = C::BaseField::NEG_ONE; let p = b.constant_foreign_field(v); let q = b.foreign_field_add(&p, &p); b.foreign_field_mul(&p, &q); }
            RawGates => { // Rows placed by hand, wires used directly.
                let g = b.num_gates();
                b.add_gate(ArithmeticGate::new(g), vec![f1::<S<C>>() + f1(), S::<C>::NEG_ONE]);
                let w = |j| Target::Wire(Wire { gate: g, input: j });
                b.copy(x, w(ArithmeticGate::<C>::WIRE_MULTIPLICAND_0)); b.copy(x, w(ArithmeticGate::<C>::WIRE_MULTIPLICAND_1)); b.copy(y, w(ArithmeticGate::<C>::WIRE_ADDEND));
                b.add_gate(ConstantGate::new(g + 1), vec![generic::<S<C>>(31)]);
                let k = Target::Wire(Wire { gate: g + 1, input: 0 });
                let m = b.mul(k, w(ArithmeticGate::<C>::WIRE_OUTPUT)); b.add(m, x); }
        }
    }
    /// Free values on rows without constraints, including wires that cannot be routed.
    pub fn free_rows(&mut self, n: usize) { for _ in 0..n { let g = self.b.num_gates(); self.b.add_gate_no_constants(BufferGate::new(g)); for j in 0..WIRES { self.inp.push((Target::Wire(Wire { gate: g, input: j }), generic::<S<C>>((g * 9 + j) as u64))); } } }
    pub fn finish(self) -> Built<C> {
        let Case { b, inp, pis } = self;
        Built { c: b.build(), inp, pis }
    }
}
pub struct Built<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { pub c: Circuit<C>, pub inp: Vec<(T<C>, S<C>)>, pub pis: Vec<(T<C>, S<C>)> }

impl<C: Hx> Built<C> where C::BaseField: Fx, C::ScalarField: Fx {
    pub fn witness(&self) -> Result<Witness<S<C>>, String> {
        let mut w = PartialWitness::new();
        for (t, v) in self.inp.iter().chain(&self.pis) { w.set_target(*t, *v); }
        let w = self.c.generate_witness(w);
        satisfied::<C, C::Inner>(&self.c, &wit(&w, self.c.degree())).map_err(|e| format!("generated witness: {}", e))?;
        Ok(w)
    }
    pub fn prove(&self, old: &[OldProof<C>], blind: bool) -> Result<(Proof<C>, Vec<S<C>>), String> {
        let w = self.witness()?;
        let p = self.c.generate_proof::<C::Inner>(&w, old, blind).map_err(|e| format!("prover: {}", e))?;
        let q = self.c.get_public_inputs(&w);
        let want: Vec<_> = self.pis.iter().map(|x| x.1).collect();
        ensure!(q == want, "reported public inputs {:?}, given {:?}", q, want);
        Ok((p, q))
    }
    pub fn check(&self, old: &[OldProof<C>], blind: bool) -> Result<u64, String> {
        let (p, q) = self.prove(old, blind)?;
        let vk = self.c.to_vk();
        accepted(&q, &p, old, &vk)?;
        Ok(1)
    }
}
pub fn accepted<C: Hx>(q: &[S<C>], p: &Proof<C>, old: &[OldProof<C>], vk: &VerificationKey<C>) -> Result<OldProof<C>, String> where C::BaseField: Fx, C::ScalarField: Fx {
    verify_proof::<C, C::Inner>(q, p, old, vk, true).map_err(|e| format!("refused: {}", e))?;
    verify_proof::<C, C::Inner>(q, p, old, vk, false).map_err(|e| format!("refused without the final check: {}", e))?.ok_or_else(|| "no deferred data".to_string())
}
