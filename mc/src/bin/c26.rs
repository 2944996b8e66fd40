//! C26: what the prover draws at random: which cells, which commitments, which cross terms, and how elements are drawn.
use mc::adv::*;
use mc::alpha::*;
use mc::circ::*;
use mc::gad::*;
use mc::refm::*;
use mc::*;
use plonky::plonk_util::{powers, reduce_with_powers};
use plonky::*;
use rand::{Error, RngCore};
use std::collections::{BTreeSet, HashMap};

type S<C> = <C as Curve>::ScalarField;

/// A circuit of the given gadgets: the last gadget sits right in front of the rows the builder adds.
fn build<C: Hx>(pis: usize, gs: &[G], rows: usize) -> Built<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut k = Case::<C>::new(pis, &|i| generic::<S<C>>(500 + i as u64));
    k.free_rows(rows);
    for g in gs { k.gadget(*g); }
    k.finish()
}
/// The cells that differ between any two of the witnesses, by column. Cells that differ only between some of them are an error.
fn free<F: Fx>(ws: &[Vec<Vec<F>>]) -> Result<Vec<Vec<usize>>, String> {
    let mut out = vec![vec![]; WIRES];
    let mut seen: HashMap<F, (usize, usize, usize)> = HashMap::new();
    for i in 0..ws[0].len() { for j in 0..WIRES {
        let vals: Vec<F> = ws.iter().map(|w| w[i][j]).collect();
        if vals.iter().all(|v| *v == vals[0]) { continue; }
        // A random value: never the same twice, neither in this cell nor in another.
        for (k, v) in vals.iter().enumerate() {
            ensure!(v.reduced(), "cell ({}, {}): not reduced", i, j);
            if let Some(o) = seen.insert(*v, (k, i, j)) { return Err(format!("cell ({}, {}) of witness {} has the value of cell ({}, {}) of witness {}", i, j, k, o.1, o.2, o.0)); }
        }
        out[j].push(i);
    } }
    Ok(out)
}
/// Every column has at least as many unconstrained random cells as there are opening points.
fn columns<C: Hx>(ctx: &Ctx, name: &str, b: &Built<C>, deep: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("columns", &format!("{} {}", C::CNAME, name), || {
        let n = b.c.degree();
        let ws: Vec<Vec<Vec<S<C>>>> = (0..4).map(|_| b.witness().map(|w| wit(&w, n))).collect::<Result<_, _>>()?;
        let f = free(&ws)?;
        for (j, l) in f.iter().enumerate() { ensure!(l.len() >= 3, "column {} has {} random cells and is opened at three points", j, l.len()); }
        // Any values in any of them satisfy the circuit, so that they really are free.
        let one = <S<C> as Field>::ONE;
        let alts = vec![S::<C>::ZERO, one, -one, generic::<S<C>>(901), ws[1][0][0]];
        let mut cnt = 0;
        let go = |w: &Vec<Vec<S<C>>>, what: String| -> R { satisfied::<C, C::Inner>(&b.c, w).map_err(|e| format!("{}: {}", what, e)) };
        for (k, v) in alts.iter().enumerate() {
            for j in 0..WIRES { for &i in &f[j] { if !deep && (i + j + k) % 3 != 0 { continue; } let mut w = ws[0].clone(); w[i][j] = *v; go(&w, format!("cell ({}, {}) set to {:?}", i, j, v))?; cnt += 1; } }
            for j in 0..WIRES { let mut w = ws[0].clone(); for &i in &f[j] { w[i][j] = *v; } go(&w, format!("random cells of column {} set to {:?}", j, v))?; cnt += 1; }
            let mut w = ws[0].clone();
            for j in 0..WIRES { for &i in &f[j] { w[i][j] = *v; } }
            go(&w, format!("random cells set to {:?}", v))?; cnt += 1;
        }
        // The random cells of one witness with all others of another.
        for a in 1..ws.len() { for j in 0..WIRES { let mut w = ws[0].clone(); for &i in &f[j] { w[i][j] = ws[a][i][j]; } go(&w, format!("random cells of column {} from another witness", j))?; cnt += 1; } }
        Ok(cnt)
    });
}

/// What hides each element of a proof: its point minus the same without randomness.
fn hiding<C: Hx>(c: &Circuit<C>, w: &[Vec<S<C>>], pis: &[S<C>], old: &[OldProof<C>], proof: &Proof<C>) -> Result<(Vec<(String, AffinePoint<C>)>, Vec<(String, S<C>)>), String> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut a = Adv::new(c, pis.to_vec(), old.to_vec());
    let zero = S::<C>::ZERO;
    a.wires(w); a.p = proof.clone();
    a.grand(w, <S<C> as Field>::ONE)?; a.p = proof.clone();
    let t = a.terms()?;
    ensure!(a.quotient(&t, &BTreeSet::new())?, "the terms do not vanish"); a.p = proof.clone();
    ensure!(a.pi_quotient()?, "the public inputs do not vanish"); a.p = proof.clone();
    // The model commits to nothing but what the proof states.
    let ch = a.challenges()?;
    let x = a.points(ch.zeta);
    for (k, (s, z)) in proof.all_opening_sets().iter().zip(&x).enumerate() { eq!(s.to_vec(), a.set(*z).to_vec(), "openings at point {}", k); }
    let diff = |p: AffinePoint<C>, q: ProjectivePoint<C>| (p.to_projective() + (-q)).to_affine();
    let plain = |p: &Poly<C>| a.commit(&Poly { c: p.c.clone(), r: zero }).to_projective();
    let mut h = vec![];
    for (j, p) in a.wires.iter().enumerate() { h.push((format!("wire {}", j), diff(proof.c_wires[j], plain(p)))); }
    h.push(("Z".to_string(), diff(proof.c_plonk_z, plain(a.z.as_ref().unwrap()))));
    for (j, p) in a.t.iter().enumerate() { h.push((format!("t {}", j), diff(proof.c_plonk_t[j], plain(p)))); }
    h.push(("public input quotient".to_string(), diff(proof.c_pis_quotient, plain(a.pq.as_ref().unwrap()))));
    // The folding again, with the proof's own challenges.
    let polys = a.all_polys();
    let sc = a.scalars(&ch, polys.len());
    let n = c.degree();
    let mut f = vec![zero; n];
    for (p, s) in polys.iter().zip(&sc) { for (i, k) in p.c.iter().enumerate() { f[i] = f[i] + *s * *k; } }
    let pw: Vec<Vec<S<C>>> = x.iter().map(|z| powers(*z, n)).collect();
    let mut b: Vec<S<C>> = (0..n).map(|i| reduce_with_powers(&pw.iter().map(|v| v[i]).collect::<Vec<_>>(), ch.v)).collect();
    let mut g: Vec<ProjectivePoint<C>> = c.pedersen_g.iter().map(|p| p.to_projective()).collect();
    let u = a.u_prime(&ch);
    let ip = |a: &[S<C>], b: &[S<C>]| a.iter().zip(b).fold(zero, |s, (x, y)| s + *x * *y);
    let msm = |a: &[S<C>], g: &[ProjectivePoint<C>]| a.iter().zip(g).fold(ProjectivePoint::<C>::ZERO, |s, (x, y)| s + C::convert(*x) * *y);
    for (k, uj) in ch.halo_us.iter().enumerate() {
        let m = f.len() / 2;
        h.push((format!("L {}", k), diff(proof.halo_l[k], msm(&f[..m], &g[m..]) + C::convert(ip(&f[..m], &b[m..])) * u)));
        h.push((format!("R {}", k), diff(proof.halo_r[k], msm(&f[m..], &g[..m]) + C::convert(ip(&f[m..], &b[..m])) * u)));
        let ui = <S<C> as Field>::ONE / *uj;
        f = (0..m).map(|i| f[m + i] * ui + f[i] * *uj).collect();
        b = (0..m).map(|i| b[i] * ui + b[m + i] * *uj).collect();
        g = (0..m).map(|i| C::convert(ui) * g[i] + C::convert(*uj) * g[m + i]).collect();
    }
    ensure!(g[0].to_affine() == proof.halo_g, "the folded generator is not the proof's");
    let d = proof.schnorr_proof.z1 - f[0] * ch.schnorr_challenge;
    h.push(("Schnorr".to_string(), diff(proof.schnorr_proof.r, C::convert(d) * (g[0] + C::convert(b[0]) * u))));
    // All of it together, as the last response uses it.
    let hp = c.pedersen_h.to_projective();
    let k = c.constant_polynomials.len() + c.s_sigma_polynomials.len();
    let mut sum = ProjectivePoint::<C>::ZERO;
    for (i, (_, q)) in h[..WIRES + 8].iter().enumerate() { sum = sum + C::convert(sc[k + i]) * q.to_projective(); }
    sum = sum + C::convert(sc[k + WIRES + 8 + old.len()]) * h[WIRES + 8].1.to_projective();
    for (i, uj) in ch.halo_us.iter().enumerate() { let y = <S<C> as Field>::ONE / (*uj * *uj); sum = sum + C::convert(*uj * *uj) * h[WIRES + 9 + 2 * i].1.to_projective() + C::convert(y) * h[WIRES + 10 + 2 * i].1.to_projective(); }
    let last = h.last().unwrap().1.to_projective();
    ensure!((C::convert(proof.schnorr_proof.z2) * hp).to_affine() == (C::convert(ch.schnorr_challenge) * sum + last).to_affine(), "the last response does not open the randomness");
    h.push(("the combined randomness".to_string(), sum.to_affine()));
    h.push(("the nonce of the value".to_string(), (C::convert(d) * hp).to_affine()));
    h.push(("the folded value".to_string(), (C::convert(f[0]) * hp).to_affine()));
    Ok((h, vec![("Schnorr nonce".to_string(), d)]))
}
/// Several proofs of one statement, with commitments hidden: nothing hides two things.
fn proofs<C: Hx>(ctx: &Ctx, name: &str, b: &Built<C>, old: &[OldProof<C>], times: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("commitments", &format!("{} {} with {} old proofs", C::CNAME, name, old.len()), || {
        let n = b.c.degree();
        let wi = b.witness()?;
        let w = wit(&wi, n);
        let pis = b.c.get_public_inputs(&wi);
        let (mut seen, mut nonces): (Vec<(String, AffinePoint<C>)>, Vec<(String, S<C>)>) = (vec![], vec![]);
        for k in 0..times {
            let p = b.c.generate_proof::<C::Inner>(&wi, old, true).map_err(|e| format!("prover: {}", e))?;
            accepted(&pis, &p, old, &b.c.to_vk())?;
            let (h, d) = hiding(&b.c, &w, &pis, old, &p)?;
            ensure!(h.len() == WIRES + 1 + 7 + 1 + 2 * p.halo_l.len() + 4, "{} hidden elements", h.len());
            for (w, q) in h { seen.push((format!("{} of proof {}", w, k), q)); }
            for (w, q) in d { nonces.push((format!("{} of proof {}", w, k), q)); }
        }
        for (i, (w, q)) in seen.iter().enumerate() {
            ensure!(!q.zero, "nothing hides {}", w);
            for (v, p) in &seen[..i] { ensure!(*p != *q && *p != -*q, "{} and {} are hidden by the same randomness", v, w); }
        }
        for (i, (w, q)) in nonces.iter().enumerate() { ensure!(!q.is_zero(), "{} is zero", w); for (v, p) in &nonces[..i] { ensure!(*p != *q && *p != -*q, "{} and {} are the same", v, w); } }
        Ok(seen.len() as u64)
    });
    ctx.bulk("commitments not hidden", &format!("{} {} with {} old proofs", C::CNAME, name, old.len()), || {
        // Without hiding, commitments are functions of the polynomials; the cross terms are hidden all the same.
        let n = b.c.degree();
        let wi = b.witness()?;
        let w = wit(&wi, n);
        let pis = b.c.get_public_inputs(&wi);
        let p = b.c.generate_proof::<C::Inner>(&wi, old, false).map_err(|e| format!("prover: {}", e))?;
        accepted(&pis, &p, old, &b.c.to_vk())?;
        let (h, d) = hiding(&b.c, &w, &pis, old, &p)?;
        for (i, (w, q)) in h.iter().enumerate() {
            let cross = i >= WIRES + 1 + 7 + 1;
            ensure!(q.zero != cross, "{} is {}hidden", w, if cross { "not " } else { "" });
            for (v, p) in &h[..i] { ensure!(!cross || *p != *q && *p != -*q, "{} and {} are hidden by the same randomness", v, w); }
        }
        ensure!(!d[0].1.is_zero(), "no nonce");
        Ok(h.len() as u64)
    });
}

/// A scripted source of words, followed by generic ones.
struct Script { w: Vec<u64>, i: usize, salt: u64 }
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let i = self.i; self.i += 1; if i < self.w.len() { self.w[i] } else { mix(self.salt * 7919 + i as u64) } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let x = self.next_u64().to_le_bytes(); let n = c.len(); c.copy_from_slice(&x[..n]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
fn draw<F: Fx>(w: &[u64], salt: u64) -> F { F::rand_from_rng(&mut Script { w: w.to_vec(), i: 0, salt }) }

fn sampling<F: Fx>(ctx: &'static Ctx, deep: bool) {
    let order = F::order();
    let bits = order.bits() as usize;
    let strip = 64 * F::W - bits;
    ctx.bulk("drawing", &format!("{} words at the boundaries", F::NAME), || {
        // Every combination of boundary words; every stream of up to three rejected candidates.
        let ol = limbs(&order, F::W);
        let mut per: Vec<Vec<u64>> = (0..F::W).map(|i| vec![0, u64::max_value(), ol[i], ol[i].wrapping_sub(1), ol[i].wrapping_add(1)]).collect();
        per[F::W - 1].extend(vec![ol[F::W - 1] << strip, (ol[F::W - 1] << strip) | ((1u64 << strip) - 1), (ol[F::W - 1] + 1) << strip]);
        if F::W > 4 && !deep { for p in per.iter_mut().take(2) { p.truncate(3); } }
        let mut cnt = 0u64;
        let mut idx = vec![0; F::W];
        loop {
            let w: Vec<u64> = (0..F::W).map(|i| per[i][idx[i]]).collect();
            let x = draw::<F>(&w, 1);
            ensure!(x.reduced(), "words {:x?}: {:x?} is not reduced", w, x.raw());
            ensure!(x == draw::<F>(&w, 1), "words {:x?}: not a function of the source", w);
            cnt += 1;
            let mut k = 0;
            while k < F::W { idx[k] += 1; if idx[k] < per[k].len() { break; } idx[k] = 0; k += 1; }
            if k == F::W { break; }
        }
        Ok(cnt)
    });
    ctx.bulk("drawing", &format!("{} candidates at or above the order", F::NAME), || {
        // A candidate too large is drawn again: it does not stand for its residue.
        let top = (b(1) << bits) - 1u32;
        let mut vs: Vec<B> = values::<F>().into_iter().filter(|v| &(v + &order) <= &top).collect();
        for k in 0..40 { vs.push(generic::<F>(k).val() % (&top - &order + 1u32)); }
        let mut cnt = 0;
        for v in vs { for salt in 0..3 {
            let words = |v: &B| { let mut l = limbs(v, F::W); l[F::W - 1] <<= strip; l };
            let (x, y) = (draw::<F>(&words(&v), salt), draw::<F>(&words(&(&v + &order)), salt));
            ensure!(x != y, "candidates {:x} and {:x} give the same element", v, &v + &order);
            ensure!(y != F::ZERO && y != draw::<F>(&words(&(&v + &order)), salt + 10), "candidate {:x}: the element drawn instead does not come from the source", &v + &order);
            cnt += 1;
        } }
        Ok(cnt)
    });
    ctx.bulk("drawing", &format!("{} bits", F::NAME), || {
        // As many bits of the source matter as the order has.
        let mut cnt = 0;
        for salt in 0..if deep { 64 } else { 16 } {
            let mut w: Vec<u64> = (0..F::W as u64).map(|i| mix(salt * 31 + i)).collect();
            w[F::W - 1] = 0;
            let x = draw::<F>(&w, salt);
            let mut out: BTreeSet<Vec<u64>> = BTreeSet::new();
            out.insert(x.raw());
            let mut n = 0;
            for k in 0..64 * F::W { let mut v = w.clone(); v[k / 64] ^= 1 << (k % 64); let y = draw::<F>(&v, salt); if y != x { n += 1; ensure!(out.insert(y.raw()), "two sources that differ in two bits give one element"); } cnt += 1; }
            ensure!(n >= bits, "{} bits of the source matter, the order has {}", n, bits);
        }
        Ok(cnt)
    });
    let n = if deep { 20000 } else { 2000 };
    ctx.bulk("drawing", &format!("{} {} elements on four threads", F::NAME, n), || {
        let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(move || (0..n).map(|_| F::rand()).collect::<Vec<F>>())).collect();
        let mut seen = std::collections::HashSet::new();
        for h in hs { for x in h.join().map_err(|_| "panic")? { ensure!(x.reduced(), "not reduced"); ensure!(seen.insert(x), "an element was drawn twice"); } }
        Ok(4 * n as u64)
    });
}

fn circuits(deep: bool) -> Vec<(usize, Vec<G>, usize)> {
    let mut v = vec![];
    // Public inputs and free rows around every boundary of a row, a power of two and the grid width.
    for &p in &[0usize, 1, 8, 9, 10, 18, 19] { for &r in &[0usize, 1, 2, 3, 4, 5, 11, 12, 13] { if deep || (p + r) % 3 != 1 || r == 0 { v.push((p, vec![], r)); } } }
    for r in 58..66 { if deep || r % 2 == 0 { v.push((0, vec![], r)); v.push((1, vec![G::Arith], r - 8)); } }
    for (k, g) in SMALL.iter().enumerate() { v.push((k % 3, vec![*g], 0)); v.push((0, vec![G::Arith, *g], 2)); }
    v.push((2, SMALL.to_vec(), 0)); v.push((9, SMALL.iter().rev().cloned().collect(), 1));
    for g in LARGE.iter() { if deep || *g == G::CurveMul || *g == G::Order { v.push((1, vec![*g], 0)); } }
    v
}
fn over<C: Hx>(ctx: &'static Ctx, share: usize, of: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let d = ctx.thorough;
    let l: Vec<_> = circuits(d).into_iter().enumerate().filter(|(i, _)| d || i % of == share).map(|x| x.1).collect();
    ctx.par_n(3, l, move |(p, gs, r)| {
        let b = build::<C>(*p, gs, *r);
        columns(ctx, &format!("{} inputs, {} free rows, {:?}", p, r, gs), &b, d);
    });
    let mut l = vec![(0usize, vec![], 1usize, 0usize), (1, vec![G::Arith, G::Consts], 0, 0), (10, vec![G::Bits, G::CurveAdd], 0, 1), (2, vec![G::Rescue], 0, 2)];
    if d { for p in &[0usize, 9, 19] { for g in SMALL.iter() { l.push((*p, vec![*g], 1, *p % 3)); } } l.push((3, SMALL.to_vec(), 0, 1)); } else { l = l.into_iter().enumerate().filter(|(i, _)| share % 2 == i % 2).map(|x| x.1).collect(); }
    ctx.par_n(3, l, move |(p, gs, r, o)| {
        let b = build::<C>(*p, gs, *r);
        let mut old = vec![];
        for _ in 0..*o { match b.prove(&[], true).and_then(|(p, q)| accepted(&q, &p, &[], &b.c.to_vk())) { Ok(x) => old.push(x), Err(e) => { ctx.fail("setup", &e); return; } } }
        proofs(ctx, &format!("{} inputs, {} free rows, {:?}", p, r, gs), &b, &old, if d { 4 } else { 2 });
    });
}
fn main() {
    run("C26", "exploration", "distinct = one circuit, one statement with several proofs, or one class of random words", |ctx| {
        fn jobs(ctx: &'static Ctx, k: usize) {
            let d = ctx.thorough;
            match k {
                0 => over::<Tweedledee>(ctx, 0, 4), 1 => over::<Tweedledum>(ctx, 1, 4), 2 => over::<Pallas>(ctx, 2, 4), 3 => over::<Vesta>(ctx, 3, 4),
                4 => sampling::<Bls12377Base>(ctx, d), 5 => sampling::<PallasBase>(ctx, d), 6 => sampling::<VestaBase>(ctx, d),
                7 => sampling::<TweedledeeBase>(ctx, d), 8 => sampling::<TweedledumBase>(ctx, d), _ => sampling::<Bls12377Scalar>(ctx, d),
            }
        }
        ctx.par((0..10).collect(), move |&k| jobs(ctx, k));
    });
}
