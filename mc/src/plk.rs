//! The lookup argument from outside: its proof as plain data, and a prover that follows the protocol with any values.
use crate::alpha::*;
use crate::circ::*;
use plonky::plonk_util::{halo_n, halo_n_mul, reduce_with_powers};
use plonky::*;

/// f, t, h1, h2, z, quotient in this order, everywhere.
pub const NAMES: [&str; 6] = ["f", "t", "h1", "h2", "z", "quotient"];

#[derive(Clone, PartialEq)]
pub struct Msg<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx {
    pub c: Vec<AffinePoint<C>>,
    pub o: Vec<[C::ScalarField; 2]>,
    pub l: Vec<AffinePoint<C>>, pub r: Vec<AffinePoint<C>>, pub g: AffinePoint<C>, pub schnorr: SchnorrProof<C>,
    pub n: usize,
}
#[derive(Clone)]
pub struct Ch<F> { pub beta: F, pub gamma: F, pub alpha: F, pub zeta: F, pub v: F, pub u: F, pub u_scaling: F, pub us: Vec<F>, pub schnorr: F }

/// The code's own verifier and challenge derivation, and its prover, on plain data (its proof type has no public name).
pub struct Api<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx {
    pub chal: Box<dyn Fn(&Msg<C>) -> Result<Ch<C::ScalarField>, String> + Send>,
    pub verify: Box<dyn Fn(&[C::ScalarField], &Msg<C>) -> Result<(), String> + Send>,
    pub prove: Box<dyn Fn(&[C::ScalarField], &[C::ScalarField]) -> Result<Msg<C>, String> + Send>,
}
/// A proof into a message, and back; for a variable of the code's proof type.
#[macro_export]
macro_rules! plk_msg { ($p:expr) => { { let p = &$p; let o = &p.openings; let h = &p.halo_proof; $crate::plk::Msg {
    c: vec![p.c_f, p.c_t, p.c_h1, p.c_h2, p.c_z, p.c_quotient],
    o: vec![[o.f.local, o.f.right], [o.t.local, o.t.right], [o.h1.local, o.h1.right], [o.h2.local, o.h2.right], [o.z.local, o.z.right], [o.quotient.local, o.quotient.right]],
    l: h.halo_l.clone(), r: h.halo_r.clone(), g: h.halo_g, schnorr: h.schnorr_proof, n: p.n } } } }
#[macro_export]
macro_rules! plk_load { ($q:expr, $m:expr) => { { let (q, m) = (&mut $q, $m);
    q.c_f = m.c[0]; q.c_t = m.c[1]; q.c_h1 = m.c[2]; q.c_h2 = m.c[3]; q.c_z = m.c[4]; q.c_quotient = m.c[5];
    { let o = &mut q.openings; for (x, y) in vec![&mut o.f, &mut o.t, &mut o.h1, &mut o.h2, &mut o.z, &mut o.quotient].into_iter().zip(&m.o) { x.local = y[0]; x.right = y[1]; } }
    let h = &mut q.halo_proof; h.halo_l = m.l.clone(); h.halo_r = m.r.clone(); h.halo_g = m.g; h.schnorr_proof = m.schnorr; q.n = m.n; } } }

/// One per thread and curve: making one costs two proofs.
pub fn api<C: Hx>() -> &'static Api<C> where C::BaseField: Fx, C::ScalarField: Fx {
    thread_local!(static A: std::cell::RefCell<std::collections::HashMap<std::any::TypeId, &'static dyn std::any::Any>> = Default::default());
    let id = std::any::TypeId::of::<C>();
    if let Some(x) = A.with(|a| a.borrow().get(&id).cloned()) { return x.downcast_ref().unwrap(); }
    let x: &'static Api<C> = Box::leak(Box::new(new_api::<C>()));
    A.with(|a| a.borrow_mut().insert(id, x));
    x
}
fn new_api<C: Hx>() -> Api<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let one = <C::ScalarField as Field>::ONE;
    let blank = move || plookup::plookup::prove::<C>(&[], &[one, one + one]).expect("a proof for a small table");
    let a = std::cell::RefCell::new(blank());
    let b = std::cell::RefCell::new(blank());
    Api {
        chal: Box::new(move |m| { let mut q = a.borrow_mut(); plk_load!(*q, m); let c = q.get_challenges().map_err(|e| format!("{}", e))?;
            Ok(Ch { beta: c.beta, gamma: c.gamma, alpha: c.alpha, zeta: c.zeta, v: c.v, u: c.u, u_scaling: c.u_scaling, us: c.halo_us, schnorr: c.schnorr_challenge }) }),
        verify: Box::new(move |t, m| { let mut q = b.borrow_mut(); plk_load!(*q, m); plookup::verifier::verify::<C>(t, &q).map_err(|e| format!("{}", e)) }),
        prove: Box::new(|f, t| plookup::plookup::prove::<C>(f, t).map(|p| plk_msg!(p)).map_err(|e| format!("{}", e))),
    }
}

pub struct Gens<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { pub n: usize, pub gs: Vec<AffinePoint<C>>, pub h: AffinePoint<C>, pub u: AffinePoint<C>, pub w: C::ScalarField }
pub fn gens<C: Hx>(n: usize) -> Gens<C> where C::BaseField: Fx, C::ScalarField: Fx {
    Gens { n, gs: (0..2 * n + 2).map(blake_hash_usize_to_curve::<C>).collect(), h: blake_hash_usize_to_curve(2 * n + 2), u: blake_hash_usize_to_curve(2 * n + 3), w: C::ScalarField::primitive_root_of_unity((n + 1).trailing_zeros() as usize) }
}
type Co<F> = Vec<F>;
pub fn at<F: Field>(p: &[F], x: F) -> F { p.iter().rev().fold(F::ZERO, |a, c| a * x + *c) }
pub fn pmul<F: Field>(a: &[F], b: &[F]) -> Co<F> { let mut o = vec![F::ZERO; a.len() + b.len()]; for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() { o[i + j] = o[i + j] + *x * *y; } } o }
pub fn padd<F: Field>(a: &[F], b: &[F]) -> Co<F> { (0..a.len().max(b.len())).map(|i| a.get(i).cloned().unwrap_or(F::ZERO) + b.get(i).cloned().unwrap_or(F::ZERO)).collect() }
pub fn pscale<F: Field>(a: &[F], k: F) -> Co<F> { a.iter().map(|x| *x * k).collect() }
fn neg<F: Field>(a: &[F]) -> Co<F> { a.iter().map(|x| -*x).collect() }
fn shift<F: Field>(a: &[F], w: F) -> Co<F> { let mut k = F::ONE; a.iter().map(|x| { let y = *x * k; k = k * w; y }).collect() }

pub struct Prover<'a, C: Hx> where C::BaseField: Fx, C::ScalarField: Fx {
    pub g: &'a Gens<C>, pub api: &'a Api<C>, pub m: Msg<C>,
    pub p: Vec<(Co<C::ScalarField>, C::ScalarField)>, // the six polynomials with their blinding
    pub fake: Option<(usize, bool, AffinePoint<C>)>,  // a point sent instead of a cross term
    rng: u64,
}
impl<'a, C: Hx> Prover<'a, C> where C::BaseField: Fx, C::ScalarField: Fx {
    pub fn new(g: &'a Gens<C>, api: &'a Api<C>, salt: u64) -> Self {
        let z = C::ScalarField::ZERO;
        Prover { g, api, p: vec![(vec![], z); 6], fake: None, rng: salt * 1000,
            m: Msg { c: vec![g.h; 6], o: vec![[z; 2]; 6], l: vec![], r: vec![], g: g.h, schnorr: SchnorrProof { r: g.h, z1: z, z2: z }, n: g.n } }
    }
    fn rand(&mut self) -> C::ScalarField { self.rng += 1; generic::<C::ScalarField>(self.rng * 131) }
    pub fn ch(&self) -> Result<Ch<C::ScalarField>, String> { (self.api.chal)(&self.m) }
    pub fn interp(&self, v: &[C::ScalarField]) -> Co<C::ScalarField> {
        // Inverse transform by definition.
        let n = v.len();
        let ni = <C::ScalarField as Field>::ONE / C::ScalarField::from_canonical_usize(n);
        let wi = <C::ScalarField as Field>::ONE / self.g.w;
        (0..n).map(|k| { let s = wi.exp_usize(k); at(v, s) * ni }).collect()
    }
    fn msm(&self, a: &[C::ScalarField], g: &[ProjectivePoint<C>]) -> ProjectivePoint<C> { a.iter().zip(g).fold(ProjectivePoint::<C>::ZERO, |s, (x, y)| if x.is_zero() { s } else { s + C::convert(*x) * *y }) }
    pub fn commit(&mut self, i: usize, co: Co<C::ScalarField>, blind: bool) {
        let r = if blind { self.rand() } else { C::ScalarField::ZERO };
        let g: Vec<_> = self.g.gs.iter().map(|p| p.to_projective()).collect();
        self.m.c[i] = (self.msm(&co, &g) + C::convert(r) * self.g.h.to_projective()).to_affine();
        self.p[i] = (co, r);
    }
    /// Values on the domain, committed to.
    pub fn values(&mut self, i: usize, v: &[C::ScalarField], blind: bool) { let c = self.interp(v); self.commit(i, c, blind); }
    pub fn domain(&self) -> Vec<C::ScalarField> { (0..=self.g.n).map(|i| self.g.w.exp_usize(i)).collect() }
    /// The recurrence's values from `start`, without looking at where it ends: n + 1 of them.
    pub fn grand(&self, start: C::ScalarField) -> Result<Vec<C::ScalarField>, String> {
        let c = self.ch()?;
        let d = self.domain();
        let v = |i: usize, k: usize| at(&self.p[i].0, d[k]);
        let b1 = c.beta + <C::ScalarField as Field>::ONE;
        let gb = c.gamma * b1;
        let mut z = vec![start];
        for k in 0..self.g.n {
            let den = (gb + v(2, k) + c.beta * v(2, k + 1)) * (gb + v(3, k) + c.beta * v(3, k + 1));
            if den.is_zero() { return Err("zero denominator".into()); }
            let x = z[k] * b1 * (c.gamma + v(0, k)) * (gb + v(1, k) + c.beta * v(1, k + 1)) / den; z.push(x);
        }
        Ok(z)
    }
    fn lagrange(&self, i: usize) -> Co<C::ScalarField> { let mut e = vec![C::ScalarField::ZERO; self.g.n + 1]; e[i] = <C::ScalarField as Field>::ONE; self.interp(&e) }
    /// The four polynomials that must vanish on the domain: first value, recurrence, overlap of h1 and h2, last value.
    pub fn terms(&self) -> Result<Vec<Co<C::ScalarField>>, String> {
        let c = self.ch()?;
        let one = <C::ScalarField as Field>::ONE;
        let (w, n) = (self.g.w, self.g.n);
        let b1 = c.beta + one; let gb = c.gamma * b1;
        let p = |i: usize| self.p[i].0.clone();
        let comb = |i: usize| padd(&[gb], &padd(&p(i), &pscale(&shift(&p(i), w), c.beta)));
        let z1 = padd(&p(4), &[-one]);
        let x = vec![-w.exp_usize(n), one];
        let a = pscale(&pmul(&pmul(&p(4), &padd(&[c.gamma], &p(0))), &comb(1)), b1);
        let b = pmul(&pmul(&shift(&p(4), w), &comb(2)), &comb(3));
        Ok(vec![pmul(&self.lagrange(0), &z1), pmul(&x, &padd(&a, &neg(&b))), pmul(&self.lagrange(n), &padd(&p(2), &neg(&shift(&p(3), w)))), pmul(&self.lagrange(n), &z1)])
    }
    /// Which terms do not vanish on the domain.
    pub fn broken(&self, t: &[Co<C::ScalarField>]) -> Vec<usize> { (0..t.len()).filter(|i| self.domain().iter().any(|x| !at(&t[*i], *x).is_zero())).collect() }
    /// Quotient of the combination of the terms by X^(n+1) - 1, dropping any remainder and what does not fit.
    pub fn quotient(&mut self, t: &[Co<C::ScalarField>]) -> Result<(), String> {
        let c = self.ch()?;
        let mut a = <C::ScalarField as Field>::ONE;
        let mut s = vec![];
        for x in t { s = padd(&s, &pscale(x, a)); a = a * c.alpha; }
        let m = self.g.n + 1;
        let mut q = vec![C::ScalarField::ZERO; s.len().max(m) - m];
        for i in (m..s.len()).rev() { q[i - m] = s[i]; let v = s[i]; s[i - m] = s[i - m] + v; }
        q.resize(2 * m, C::ScalarField::ZERO);
        self.commit(5, q, true); Ok(())
    }
    /// What the verifier expects the quotient to be at zeta, from the stated openings.
    pub fn expected(&self) -> Result<C::ScalarField, String> {
        let c = self.ch()?;
        let one = <C::ScalarField as Field>::ONE;
        let (w, n) = (self.g.w, self.g.n);
        let b1 = c.beta + one; let gb = c.gamma * b1;
        let o = &self.m.o;
        let l = |i: usize| at(&self.lagrange(i), c.zeta);
        let comb = |i: usize| gb + o[i][0] + c.beta * o[i][1];
        let x = c.zeta - w.exp_usize(n);
        let t = [l(0) * (o[4][0] - one), x * (o[4][0] * b1 * (c.gamma + o[0][0]) * comb(1) - o[4][1] * comb(2) * comb(3)), l(n) * (o[2][0] - o[3][1]), l(n) * (o[4][0] - one)];
        Ok(reduce_with_powers(&t, c.alpha) / (c.zeta.exp_usize(n + 1) - one))
    }
    pub fn open(&mut self) -> Result<(), String> { let z = self.ch()?.zeta; for i in 0..6 { self.m.o[i] = [at(&self.p[i].0, z), at(&self.p[i].0, z * self.g.w)]; } Ok(()) }
    fn scalars(&self, c: &Ch<C::ScalarField>) -> Vec<C::ScalarField> { let mut p = <C::ScalarField as Field>::ONE; (0..6).map(|_| { let r = halo_n::<C>(&p.to_canonical_bool_vec()[..128]); p = p * c.u; r }).collect() }
    /// The opening argument; `bogus`: with a final point fitted to the last equation whatever openings are stated.
    pub fn ipa(&mut self, bogus: bool) -> Result<(), String> {
        let zero = C::ScalarField::ZERO;
        let ch = self.ch()?;
        let n = 2 * self.g.n + 2;
        let sc = self.scalars(&ch);
        let (mut a, mut rho) = (vec![zero; n], zero);
        for ((p, r), s) in self.p.iter().zip(&sc) { for (i, c) in p.iter().enumerate() { a[i] = a[i] + *s * *c; } rho = rho + *s * *r; }
        let pts = vec![ch.zeta, ch.zeta * self.g.w];
        let mut b: Vec<C::ScalarField> = (0..n).map(|i| reduce_with_powers(&pts.iter().map(|p| p.exp_usize(i)).collect::<Vec<_>>(), ch.v)).collect();
        let u = halo_n_mul(&ch.u_scaling.to_canonical_bool_vec()[..128], self.g.u).to_projective();
        let mut g: Vec<ProjectivePoint<C>> = self.g.gs.iter().map(|p| p.to_projective()).collect();
        let h = self.g.h.to_projective();
        let ip = |a: &[C::ScalarField], b: &[C::ScalarField]| a.iter().zip(b).fold(zero, |s, (x, y)| s + *x * *y);
        while a.len() > 1 {
            let m = a.len() / 2;
            let (uj, l, r) = loop {
                let (l, r) = (self.rand(), self.rand());
                let lj = self.msm(&a[..m], &g[m..]) + C::convert(l) * h + C::convert(ip(&a[..m], &b[m..])) * u;
                let rj = self.msm(&a[m..], &g[..m]) + C::convert(r) * h + C::convert(ip(&a[m..], &b[..m])) * u;
                self.m.l.push(lj.to_affine()); self.m.r.push(rj.to_affine());
                if let Some((k, left, q)) = self.fake { if k + 1 == self.m.l.len() { if left { self.m.l[k] = q } else { self.m.r[k] = q } } }
                if let Ok(c) = self.ch() { break (*c.us.last().unwrap(), l, r); }
                self.m.l.pop(); self.m.r.pop();
            };
            let ui = <C::ScalarField as Field>::ONE / uj;
            rho = rho + uj * uj * l + ui * ui * r;
            a = (0..m).map(|i| a[m + i] * ui + a[i] * uj).collect();
            b = (0..m).map(|i| b[i] * ui + b[m + i] * uj).collect();
            g = (0..m).map(|i| C::convert(ui) * g[i] + C::convert(uj) * g[m + i]).collect();
        }
        if bogus {
            let stated: Vec<_> = (0..2).map(|k| (0..6).fold(zero, |s, i| s + sc[i] * self.m.o[i][k])).collect();
            let truth: Vec<_> = (0..2).map(|k| (0..6).fold(zero, |s, i| s + sc[i] * at(&self.p[i].0, pts[k]))).collect();
            let delta = reduce_with_powers(&stated, ch.v) - reduce_with_powers(&truth, ch.v);
            let (rr, ru, rh) = (self.rand(), self.rand(), self.rand());
            self.m.schnorr.r = (C::convert(rr) * g[0] + C::convert(ru) * u + C::convert(rh) * h).to_affine();
            let c = self.ch()?.schnorr;
            let z1 = (c * (a[0] * b[0] + delta) + ru) / b[0];
            let k = (c * a[0] + rr) / z1;
            self.m.g = (C::convert(k) * g[0]).to_affine();
            self.m.schnorr.z1 = z1; self.m.schnorr.z2 = c * rho + rh;
            return Ok(());
        }
        self.m.g = g[0].to_affine();
        let (d, s) = (self.rand(), self.rand());
        self.m.schnorr.r = (C::convert(d) * (g[0] + C::convert(b[0]) * u) + C::convert(s) * h).to_affine();
        let c = self.ch()?.schnorr;
        self.m.schnorr.z1 = a[0] * c + d; self.m.schnorr.z2 = rho * c + s;
        Ok(())
    }
}
