//! A prover that follows the protocol's algebra with whatever values it is given, step by step.
//!
//! Every challenge comes from the verifier's own derivation (`Proof::get_challenges` on the messages fixed so far), so that
//! the prover can hold back or replace any message and see what the verifier would do with it.
use crate::alpha::*;
use crate::circ::*;
use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, pedersen_hash, reduce_with_powers};
use plonky::*;
use std::collections::BTreeSet;

pub const TERM_Z1: usize = 0;
pub const TERM_PERM: usize = 1;

#[derive(Clone)]
pub struct Poly<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { pub c: Vec<C::ScalarField>, pub r: C::ScalarField }

#[derive(Clone)]
pub struct Adv<'a, C: Hx> where C::BaseField: Fx, C::ScalarField: Fx {
    pub c: &'a Circuit<C>,
    pub p: Proof<C>,
    pub pis: Vec<C::ScalarField>,
    pub old: Vec<OldProof<C>>,
    pub oldp: Vec<Poly<C>>,          // what is really inside each old proof's point
    pub wires: Vec<Poly<C>>,
    pub z: Option<Poly<C>>,
    pub t: Vec<Poly<C>>,
    pub pq: Option<Poly<C>>,
    /// A point sent instead of a cross term: (round, L or R, point).
    pub fake: Option<(usize, bool, AffinePoint<C>)>,
    /// The opening argument is run on vectors of twice the length, the upper half being empty.
    pub wide: bool,
    rng: u64,
}
/// k_i of the identity permutation, read off a wire which is its own neighbour.
pub fn shifts<C: Hx>(c: &Circuit<C>) -> Vec<C::ScalarField> where C::BaseField: Fx, C::ScalarField: Fx {
    (0..ROUTED).map(|j| {
        let row = (0..c.degree()).find(|i| c.routing_target_partitions.get_partition(Target::Wire(Wire { gate: *i, input: j })).iter().filter(|t| matches!(t, Target::Wire(_))).count() == 1).expect("a wire on its own");
        c.s_sigma_polynomials[j].eval(c.subgroup_n[row]) / c.subgroup_n[row]
    }).collect()
}

impl<'a, C: Hx> Adv<'a, C> where C::BaseField: Fx, C::ScalarField: Fx {
    pub fn new(c: &'a Circuit<C>, pis: Vec<C::ScalarField>, old: Vec<OldProof<C>>) -> Self {
        let g = c.pedersen_h;
        let z = C::ScalarField::ZERO;
        let os = || OpeningSet { o_constants: vec![], o_plonk_sigmas: vec![], o_wires: vec![], o_plonk_z: z, o_plonk_t: vec![], o_old_proofs: vec![], o_pi_quotient: z };
        let oldp = old.iter().map(|o| Poly { c: o.coeffs(), r: z }).collect();
        Adv { c, pis, old, oldp, wires: vec![], z: None, t: vec![], pq: None, fake: None, wide: false, rng: 77,
            p: Proof { c_wires: vec![], c_plonk_z: g, c_plonk_t: vec![], c_pis_quotient: g, o_local: os(), o_right: os(), o_below: os(), halo_l: vec![], halo_r: vec![], halo_g: g, schnorr_proof: SchnorrProof { r: g, z1: z, z2: z } } }
    }
    pub fn n(&self) -> usize { self.c.degree() }
    pub fn rand(&mut self) -> C::ScalarField { self.rng += 1; generic::<C::ScalarField>(self.rng * 131) }
    pub fn commit(&self, p: &Poly<C>) -> AffinePoint<C> { (pedersen_hash(&p.c, &self.c.pedersen_g_msm_precomputation) + C::convert(p.r) * self.c.pedersen_h.to_projective()).to_affine() }
    pub fn hide(&mut self, mut c: Vec<C::ScalarField>) -> Poly<C> { c.resize(self.n(), C::ScalarField::ZERO); Poly { c, r: self.rand() } }
    fn interp(&self, v: &[C::ScalarField]) -> Vec<C::ScalarField> { Polynomial::from_evaluations(v, &self.c.fft_precomputation_n).coeffs().to_vec() }
    pub fn challenges(&self) -> Result<ProofChallenge<C>, String> { self.p.get_challenges(&self.pis, &self.old).map_err(|e| format!("{}", e)) }

    /// Commits to the columns of an assignment given row by row.
    pub fn wires(&mut self, w: &[Vec<C::ScalarField>]) {
        for j in 0..WIRES { let col: Vec<_> = w.iter().map(|r| r[j]).collect(); let p = self.interp(&col); let p = self.hide(p); self.wires.push(p); }
        self.p.c_wires = self.wires.iter().map(|p| self.commit(p)).collect();
    }
    /// The grand product, started at `start`; `w` as for `wires`.
    pub fn grand(&mut self, w: &[Vec<C::ScalarField>], start: C::ScalarField) -> Result<(), String> {
        let ch = self.challenges()?;
        let k = shifts(self.c);
        let mut v = vec![start];
        for i in 0..self.n() - 1 {
            let x = self.c.subgroup_n[i];
            let (mut a, mut b) = (<C::ScalarField as Field>::ONE, <C::ScalarField as Field>::ONE);
            for j in 0..ROUTED { a = a * (w[i][j] + ch.beta * k[j] * x + ch.gamma); b = b * (w[i][j] + ch.beta * self.c.s_sigma_polynomials[j].eval(x) + ch.gamma); }
            if b.is_zero() { return Err("zero denominator".into()); }
            let l = v[i] * a / b; v.push(l);
        }
        let p = self.interp(&v); let p = self.hide(p);
        self.p.c_plonk_z = self.commit(&p); self.z = Some(p); Ok(())
    }
    /// Every term that must vanish on the subgroup: the start of Z, its recurrence, then all gate constraints; as coefficients of degree < 8n.
    pub fn terms(&self) -> Result<Vec<Vec<C::ScalarField>>, String> {
        let ch = self.challenges()?;
        let n = self.n();
        let k = shifts(self.c);
        let one = <C::ScalarField as Field>::ONE;
        let big = |p: &[C::ScalarField]| { let mut v = p.to_vec(); v.resize(8 * n, C::ScalarField::ZERO); fft_with_precomputation_power_of_2(&v, &self.c.fft_precomputation_8n) };
        let ws: Vec<_> = self.wires.iter().map(|p| big(&p.c)).collect();
        let z = big(&self.z.as_ref().unwrap().c);
        let ks: Vec<_> = self.c.constant_polynomials.iter().map(|p| big(p.coeffs())).collect();
        let ss: Vec<_> = self.c.s_sigma_polynomials.iter().map(|p| big(p.coeffs())).collect();
        // L_1 in coefficients is 1/n everywhere.
        let ni = <C::ScalarField as Field>::ONE / C::ScalarField::from_canonical_usize(n);
        let l1 = big(&vec![ni; n]);
        let mut out: Vec<Vec<C::ScalarField>> = vec![];
        for i in 0..8 * n {
            let at = |v: &Vec<Vec<C::ScalarField>>, i: usize| -> Vec<C::ScalarField> { v.iter().map(|p| p[i]).collect() };
            let (r, b) = ((i + 8) % (8 * n), (i + 8 * GRID) % (8 * n));
            let (mut f, mut g) = (one, one);
            for j in 0..ROUTED { f = f * (ws[j][i] + ch.beta * k[j] * self.c.subgroup_8n[i] + ch.gamma); g = g * (ws[j][i] + ch.beta * ss[j][i] + ch.gamma); }
            let mut t = vec![l1[i] * (z[i] - one), f * z[i] - g * z[r]];
            t.extend(evaluate_all_constraints::<C, C::Inner>(&at(&ks, i), &at(&ws, i), &at(&ws, r), &at(&ws, b)));
            if out.is_empty() { out = vec![vec![]; t.len()]; }
            for (o, v) in out.iter_mut().zip(t) { o.push(v); }
        }
        Ok(out.into_iter().map(|v| Polynomial::from_evaluations(&v, &self.c.fft_precomputation_8n).coeffs().to_vec()).collect())
    }
    /// Quotient by X^n - 1 and whether the division is exact.
    pub fn div_h(&self, t: &[C::ScalarField]) -> (Vec<C::ScalarField>, bool) {
        let n = self.n();
        let mut r = t.to_vec();
        let mut q = vec![C::ScalarField::ZERO; r.len().max(n) - n];
        for i in (n..r.len()).rev() { q[i - n] = r[i]; let v = r[i]; r[i - n] = r[i - n] + v; r[i] = C::ScalarField::ZERO; }
        (q, r.iter().all(|x| x.is_zero()))
    }
    /// Commits to the quotient of the combination of all terms except `omit`, discarding any remainder. True if there is none.
    pub fn quotient(&mut self, terms: &[Vec<C::ScalarField>], omit: &BTreeSet<usize>) -> Result<bool, String> {
        let ch = self.challenges()?;
        let len = 8 * self.n();
        let mut sum = vec![C::ScalarField::ZERO; len];
        let mut a = <C::ScalarField as Field>::ONE;
        for (k, t) in terms.iter().enumerate() { if !omit.contains(&k) { for i in 0..len { sum[i] = sum[i] + a * t[i]; } } a = a * ch.alpha; }
        let (q, exact) = self.div_h(&sum);
        self.set_t(&q); Ok(exact)
    }
    pub fn set_t(&mut self, q: &[C::ScalarField]) {
        let n = self.n();
        let mut q = q.to_vec(); q.resize(7 * n, C::ScalarField::ZERO);
        self.t = vec![];
        for ch in q.chunks(n) { let p = self.hide(ch.to_vec()); self.t.push(p); }
        self.p.c_plonk_t = self.t.iter().map(|p| self.commit(p)).collect();
    }
    /// Commits to the quotient of the public-input combination, discarding any remainder. The claimed inputs are subtracted.
    pub fn pi_quotient(&mut self) -> Result<bool, String> {
        let ch = self.challenges()?;
        let n = self.n();
        let rows = (self.c.num_public_inputs + WIRES - 1) / WIRES;
        let mut target = vec![C::ScalarField::ZERO; n];
        for i in 0..rows { let v: Vec<_> = (0..WIRES).map(|j| self.pis.get(i * WIRES + j).cloned().unwrap_or(C::ScalarField::ZERO)).collect(); target[self.c.num_gates_without_pis + 2 * i] = reduce_with_powers(&v, ch.alpha); }
        let pi = self.interp(&target);
        let mut a = <C::ScalarField as Field>::ONE;
        let mut sum: Vec<C::ScalarField> = pi.iter().map(|x| -*x).collect();
        for w in &self.wires { for i in 0..n { sum[i] = sum[i] + a * w.c[i]; } a = a * ch.alpha; }
        let mut exact = true;
        for i in 0..rows {
            // Synthetic division by X - r.
            let r = self.c.subgroup_n[self.c.num_gates_without_pis + 2 * i];
            let mut c = C::ScalarField::ZERO;
            let mut q = vec![C::ScalarField::ZERO; sum.len()];
            for k in (0..sum.len()).rev() { q[k] = c; c = sum[k] + c * r; }
            exact &= c.is_zero(); sum = q;
        }
        let p = self.hide(sum);
        self.p.c_pis_quotient = self.commit(&p); self.pq = Some(p); Ok(exact)
    }
    pub fn all_polys(&self) -> Vec<Poly<C>> {
        let pad = |p: &Polynomial<C::ScalarField>| Poly { c: p.coeffs().to_vec(), r: C::ScalarField::ZERO };
        self.c.constant_polynomials.iter().map(pad).chain(self.c.s_sigma_polynomials.iter().map(pad)).chain(self.wires.iter().cloned()).chain(self.z.iter().cloned()).chain(self.t.iter().cloned()).chain(self.oldp.iter().cloned()).chain(self.pq.iter().cloned()).collect()
    }
    pub fn points(&self, zeta: C::ScalarField) -> Vec<C::ScalarField> { let g = self.c.subgroup_generator_n; vec![zeta, zeta * g, zeta * g.exp_usize(GRID)] }
    pub fn set(&self, x: C::ScalarField) -> OpeningSet<C::ScalarField> {
        let e = |p: &Poly<C>| p.c.iter().rev().fold(C::ScalarField::ZERO, |a, c| a * x + *c);
        OpeningSet { o_constants: self.c.constant_polynomials.iter().map(|p| p.eval(x)).collect(), o_plonk_sigmas: self.c.s_sigma_polynomials.iter().map(|p| p.eval(x)).collect(), o_wires: self.wires.iter().map(e).collect(), o_plonk_z: e(self.z.as_ref().unwrap()), o_plonk_t: self.t.iter().map(e).collect(), o_old_proofs: self.oldp.iter().map(e).collect(), o_pi_quotient: e(self.pq.as_ref().unwrap()) }
    }
    /// True openings of everything committed to.
    pub fn open(&mut self) -> Result<(), String> {
        let z = self.challenges()?.zeta;
        let x = self.points(z);
        self.p.o_local = self.set(x[0]); self.p.o_right = self.set(x[1]); self.p.o_below = self.set(x[2]); Ok(())
    }
    pub fn scalars(&self, ch: &ProofChallenge<C>, n: usize) -> Vec<C::ScalarField> {
        let mut p = <C::ScalarField as Field>::ONE;
        (0..n).map(|_| { let r = halo_n::<C>(&p.to_canonical_bool_vec()[..self.c.security_bits]); p = p * ch.u; r }).collect()
    }
    /// The opening argument for what is committed to (whatever the stated openings say).
    pub fn ipa(&mut self) -> Result<(), String> { self.ipa_(false).map(|_| ()) }
    /// As `ipa`, but with a final point fitted to the last equation for whatever openings are stated, so that only the linear-time
    /// check can object. Returns the polynomial inside that point.
    pub fn ipa_bogus(&mut self) -> Result<Poly<C>, String> { self.ipa_(true).map(|p| p.unwrap()) }
    fn ipa_(&mut self, bogus: bool) -> Result<Option<Poly<C>>, String> {
        let ch = self.challenges()?;
        let n = self.n();
        let polys = self.all_polys();
        let sc = self.scalars(&ch, polys.len());
        let zero = C::ScalarField::ZERO;
        let (mut a, mut rho) = (vec![zero; n], zero);
        for (p, s) in polys.iter().zip(&sc) { for (i, c) in p.c.iter().enumerate() { a[i] = a[i] + *s * *c; } rho = rho + *s * p.r; }
        let pts = self.points(ch.zeta);
        let mut b = vec![]; let mut pw = vec![<C::ScalarField as Field>::ONE; 3];
        let len = if self.wide { a.resize(2 * n, zero); 2 * n } else { n };
        for _ in 0..len { b.push(reduce_with_powers(&pw, ch.v)); for (w, p) in pw.iter_mut().zip(&pts) { *w = *w * *p; } }
        let u = self.u_prime(&ch);
        let mut g: Vec<ProjectivePoint<C>> = self.c.pedersen_g.iter().map(|p| p.to_projective()).collect();
        g.resize(len, ProjectivePoint::<C>::ZERO);
        let h = self.c.pedersen_h.to_projective();
        let ip = |a: &[C::ScalarField], b: &[C::ScalarField]| a.iter().zip(b).fold(zero, |s, (x, y)| s + *x * *y);
        let msm = |a: &[C::ScalarField], g: &[ProjectivePoint<C>]| a.iter().zip(g).fold(ProjectivePoint::<C>::ZERO, |s, (x, y)| s + C::convert(*x) * *y);
        while a.len() > 1 {
            let m = a.len() / 2;
            let (uj, l, r) = loop {
                let (l, r) = (self.rand(), self.rand());
                let lj = msm(&a[..m], &g[m..]) + C::convert(l) * h + C::convert(ip(&a[..m], &b[m..])) * u;
                let rj = msm(&a[m..], &g[..m]) + C::convert(r) * h + C::convert(ip(&a[m..], &b[..m])) * u;
                self.p.halo_l.push(lj.to_affine()); self.p.halo_r.push(rj.to_affine());
                if let Some((k, left, q)) = self.fake { if k + 1 == self.p.halo_l.len() { if left { self.p.halo_l[k] = q } else { self.p.halo_r[k] = q } } }
                if let Ok(c) = self.challenges() { break (*c.halo_us.last().unwrap(), l, r); }
                self.p.halo_l.pop(); self.p.halo_r.pop();
            };
            let ui = <C::ScalarField as Field>::ONE / uj;
            rho = rho + uj * uj * l + ui * ui * r;
            a = (0..m).map(|i| a[m + i] * ui + a[i] * uj).collect();
            b = (0..m).map(|i| b[i] * ui + b[m + i] * uj).collect();
            g = (0..m).map(|i| C::convert(ui) * g[i] + C::convert(uj) * g[m + i]).collect();
        }
        if bogus {
            let n = polys.len();
            let stated: Vec<C::ScalarField> = self.p.all_opening_sets().iter().map(|o| o.to_vec().iter().zip(&sc[..n]).fold(zero, |s, (x, y)| s + *x * *y)).collect();
            let truth: Vec<C::ScalarField> = pts.iter().map(|x| self.set(*x).to_vec().iter().zip(&sc[..n]).fold(zero, |s, (x, y)| s + *x * *y)).collect();
            let delta = reduce_with_powers(&stated, ch.v) - reduce_with_powers(&truth, ch.v);
            let (rr, ru, rh) = (self.rand(), self.rand(), self.rand());
            self.p.schnorr_proof.r = (C::convert(rr) * g[0] + C::convert(ru) * u + C::convert(rh) * h).to_affine();
            let cc = self.challenges()?;
            let c = cc.schnorr_challenge;
            let z1 = (c * (a[0] * b[0] + delta) + ru) / b[0];
            let k = (c * a[0] + rr) / z1;
            self.p.halo_g = (C::convert(k) * g[0]).to_affine();
            self.p.schnorr_proof.z1 = z1; self.p.schnorr_proof.z2 = c * rho + rh;
            return Ok(Some(Poly { c: plonky::plonk_util::halo_s(&cc.halo_us).iter().map(|x| *x * k).collect(), r: zero }));
        }
        self.p.halo_g = g[0].to_affine();
        let (d, s) = (self.rand(), self.rand());
        self.p.schnorr_proof.r = (C::convert(d) * (g[0] + C::convert(b[0]) * u) + C::convert(s) * h).to_affine();
        let c = self.challenges()?.schnorr_challenge;
        self.p.schnorr_proof.z1 = a[0] * c + d;
        self.p.schnorr_proof.z2 = rho * c + s;
        Ok(None)
    }
    pub fn u_prime(&self, ch: &ProofChallenge<C>) -> ProjectivePoint<C> { halo_n_mul(&ch.u_scaling.to_canonical_bool_vec()[..self.c.security_bits], self.c.u).to_projective() }
    /// Q of the verifier's last equation, from the stated openings and cross terms.
    pub fn q(&self, ch: &ProofChallenge<C>) -> ProjectivePoint<C> {
        let u = self.u_prime(ch);
        let coms: Vec<AffinePoint<C>> = self.c.c_constants.iter().chain(&self.c.c_s_sigmas).map(|c| c.to_affine()).chain(self.p.c_wires.iter().cloned()).chain(vec![self.p.c_plonk_z]).chain(self.p.c_plonk_t.iter().cloned()).chain(self.old.iter().map(|o| o.halo_g)).chain(vec![self.p.c_pis_quotient]).collect();
        let sc = self.scalars(ch, coms.len());
        let mut q = coms.iter().zip(&sc).fold(ProjectivePoint::<C>::ZERO, |s, (p, x)| s + C::convert(*x) * p.to_projective());
        let v: Vec<C::ScalarField> = self.p.all_opening_sets().iter().map(|o| o.to_vec().iter().zip(&sc).fold(C::ScalarField::ZERO, |s, (x, y)| s + *x * *y)).collect();
        q = q + C::convert(reduce_with_powers(&v, ch.v)) * u;
        for (i, x) in ch.halo_us.iter().enumerate() { let y = <C::ScalarField as Field>::ONE / *x; q = q + C::convert(*x * *x) * self.p.halo_l[i].to_projective() + C::convert(y * y) * self.p.halo_r[i].to_projective(); }
        q
    }
    /// b of the verifier's last equation.
    pub fn b(&self, ch: &ProofChallenge<C>) -> C::ScalarField { reduce_with_powers(&self.points(ch.zeta).iter().map(|p| halo_g(*p, &ch.halo_us)).collect::<Vec<_>>(), ch.v) }
    pub fn verify(&self, full: bool) -> Result<(), String> { verify_proof::<C, C::Inner>(&self.pis, &self.p, &self.old, &self.c.to_vk(), full).map(|_| ()).map_err(|e| format!("{}", e)) }
    /// Wires, grand product, quotients, openings and opening argument for an assignment, terms in `omit` left out.
    pub fn run(&mut self, w: &[Vec<C::ScalarField>], start: C::ScalarField, omit: &BTreeSet<usize>) -> Result<bool, String> {
        self.wires(w); self.grand(w, start)?;
        let t = self.terms()?;
        let e = self.quotient(&t, omit)?;
        let f = self.pi_quotient()?;
        self.open()?; self.ipa()?; Ok(e && f)
    }
}
/// The verifier's expected t(zeta) and public input quotient for stated openings.
pub fn expected<C: Hx>(a: &Adv<C>, ch: &ProofChallenge<C>) -> (C::ScalarField, C::ScalarField) where C::BaseField: Fx, C::ScalarField: Fx {
    let n = a.n();
    let one = <C::ScalarField as Field>::ONE;
    let zh = ch.zeta.exp_usize(n) - one;
    let l1 = zh / (C::ScalarField::from_canonical_usize(n) * (ch.zeta - one));
    let o = &a.p.o_local;
    let k = shifts(a.c);
    let (mut f, mut g) = (one, one);
    for j in 0..ROUTED { f = f * (o.o_wires[j] + ch.beta * k[j] * ch.zeta + ch.gamma); g = g * (o.o_wires[j] + ch.beta * o.o_plonk_sigmas[j] + ch.gamma); }
    let mut t = vec![l1 * (o.o_plonk_z - one), f * o.o_plonk_z - g * a.p.o_right.o_plonk_z];
    t.extend(evaluate_all_constraints::<C, C::Inner>(&o.o_constants, &o.o_wires, &a.p.o_right.o_wires, &a.p.o_below.o_wires));
    let comb = |v: &[C::ScalarField], x: C::ScalarField| v.iter().rev().fold(C::ScalarField::ZERO, |s, y| s * x + *y);
    let tz = comb(&t, ch.alpha) / zh;
    let rows = (a.c.num_public_inputs + WIRES - 1) / WIRES;
    let mut num = comb(&o.o_wires, ch.alpha);
    let mut den = one;
    for i in 0..rows {
        // Lagrange polynomial of the row, at zeta.
        let r = a.c.subgroup_n[a.c.num_gates_without_pis + 2 * i];
        let l = r * zh / (C::ScalarField::from_canonical_usize(n) * (ch.zeta - r));
        let v: Vec<_> = (0..WIRES).map(|j| a.pis.get(i * WIRES + j).cloned().unwrap_or(C::ScalarField::ZERO)).collect();
        num = num - l * comb(&v, ch.alpha);
        den = den * (ch.zeta - r);
    }
    (tz, num / den)
}

