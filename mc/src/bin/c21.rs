//! C21: commitments, the round-challenge vector, n(x) and the batched opening argument.
use mc::alpha::*;
use mc::circ::*;
use mc::pts::*;
use mc::refm::*;
use mc::*;
use plonky::halo::*;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::*;
use std::collections::HashMap;

fn lists(al: &[B], maxlen: usize) -> Vec<Vec<B>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<B>> = vec![vec![]];
    for _ in 0..=maxlen {
        out.extend(cur.clone());
        cur = cur.into_iter().flat_map(|w| al.iter().map(move |a| { let mut v = w.clone(); v.push(a.clone()); v })).collect();
    }
    out
}
fn gens<C: Cx>(n: usize) -> Vec<Pt> where C::BaseField: Fx, C::ScalarField: Fx {
    let g = of_aff(&C::GENERATOR_AFFINE).unwrap();
    (0..n as u64).map(|i| crv::<C>().mul(&generic::<C::ScalarField>(77 + i).val(), &g)).collect()
}
/// Reference commitment, over generators with known discrete logarithms.
fn dl<C: Cx>(n: usize) -> Vec<B> where C::BaseField: Fx, C::ScalarField: Fx { (0..n as u64).map(|i| generic::<C::ScalarField>(77 + i).val()).collect() }
fn com<C: Cx>(co: &[B], r: &B, logs: &[B], hlog: &B) -> Pt where C::BaseField: Fx, C::ScalarField: Fx {
    let q = C::ScalarField::order();
    let e = co.iter().zip(logs).fold(mul(r, hlog, &q), |a, (c, l)| add(&a, &mul(c, l, &q), &q));
    crv::<C>().mul(&e, &of_aff(&C::GENERATOR_AFFINE).unwrap())
}

fn commitments<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let q = C::ScalarField::order();
    for n in ctx.tier(vec![1usize, 2, 4, 5], vec![1, 2, 3, 4, 5, 8, 16]) {
        let (logs, hlog) = (dl::<C>(n), generic::<C::ScalarField>(500).val());
        let g = of_aff(&C::GENERATOR_AFFINE).unwrap();
        let h = aff::<C>(&crv::<C>().mul(&hlog, &g));
        let gp: Vec<ProjectivePoint<C>> = gens::<C>(n).iter().map(|p| aff::<C>(p).to_projective()).collect();
        for w in ctx.tier(vec![3usize, 8], vec![1, 2, 3, 5, 8, 11]) {
            let pre = msm_precompute(&gp, w);
            let al = vec![b(0), b(1), &q - 1u32, generic::<C::ScalarField>(8).val()];
            let mut cs: Vec<Vec<B>> = lists(&al, n.min(ctx.tier(2, 3)));
            cs.push((0..n as u64).map(|i| generic::<C::ScalarField>(600 + i).val()).collect());
            cs.push(vec![b(0); n]); cs.push(vec![&q - 1u32; n]);
            cs.retain(|c| c.len() == n || n > 2);
            // Lists shorter than the generators stand for zero-padded ones.
            let cs: Vec<Vec<B>> = cs.into_iter().map(|mut c| { c.resize(n, b(0)); c }).collect();
            ctx.bulk("commit", &format!("{} n={} window={}, {} lists", C::CNAME, n, w, cs.len()), || {
                let mut cnt = 0;
                for blind in &[false, true] {
                    let co: Vec<Vec<C::ScalarField>> = cs.iter().map(|c| c.iter().map(|x| C::ScalarField::of(x)).collect()).collect();
                    let refs: Vec<&[C::ScalarField]> = co.iter().map(|c| &c[..]).collect();
                    let all = PolynomialCommitment::<C>::coeffs_vec_to_commitments(&refs, &pre, h, *blind);
                    ensure!(all.len() == cs.len(), "number of commitments");
                    let affs = PolynomialCommitment::commitments_to_affine_vec(&all);
                    let polys: Vec<Polynomial<C::ScalarField>> = co.iter().map(|c| Polynomial::from(c.clone())).collect();
                    let all2 = commit_polynomials(&polys, &pre, h, *blind);
                    let mut rands = std::collections::HashSet::new();
                    let mut mixed = vec![];
                    for (i, c) in cs.iter().enumerate() {
                        let one = PolynomialCommitment::<C>::coeffs_to_commitment(refs[i], &pre, h, *blind);
                        let p3 = polys[i].commit(&pre, h, *blind);
                        for (nm, z) in [("batch", &all[i]), ("commit_polynomials", &all2[i]), ("single", &one), ("polynomial", &p3)].iter() {
                            ensure!(z.randomness.reduced() && (*blind || z.randomness.is_zero()), "{}: randomness without blinding", nm);
                            if *blind { ensure!(rands.insert(z.randomness.val()), "{}: a blinding factor was used twice", nm); }
                            sa::<C>(&z.to_affine(), &com::<C>(c, &z.randomness.val(), &logs, &hlog), &|| format!("{} commitment to {:?}", nm, c))?;
                        }
                        sa::<C>(&affs[i], &com::<C>(c, &all[i].randomness.val(), &logs, &hlog), &|| "commitments_to_affine_vec".to_string())?;
                        sp::<C>(&pedersen_hash(refs[i], &pre), &com::<C>(c, &b(0), &logs, &hlog), &|| "pedersen_hash".to_string())?;
                        mixed.push(one);
                        if i % 2 == 0 { let z = PolynomialCommitment::from(affs[i]); ensure!(z.randomness.is_zero(), "the commitment made from a point has a blinding factor"); mixed.push(z); }
                        cnt += 5;
                    }
                    // Batch normalisation of a list mixing both forms leaves each commitment what it was.
                    let before: Vec<_> = mixed.iter().map(|z| (of_aff(&z.to_affine()).unwrap(), z.randomness)).collect();
                    PolynomialCommitment::batch_to_affine(&mut mixed);
                    for (z, (pt, r)) in mixed.iter().zip(&before) { sa::<C>(&z.to_affine(), pt, &|| "batch_to_affine".to_string())?; ensure!(z.randomness == *r, "batch_to_affine changed the randomness"); }
                }
                Ok(cnt)
            });
        }
    }
}

/// <s, powers of x> and its product form, against the definition.
fn svec<F: Fx>(ctx: &'static Ctx) {
    let p = F::order();
    let al = vec![b(1), b(2), &p - 1u32, inv(&b(2), &p), generic::<F>(21).val()];
    let xs = vec![b(0), b(1), b(2), &p - 1u32, generic::<F>(22).val(), F::primitive_root_of_unity(3).val()];
    let mut ls = lists(&al, ctx.tier(3, 4));
    for k in 4..ctx.tier(7u64, 10) { ls.push((0..k).map(|i| generic::<F>(30 + i).val()).collect()); }
    ctx.bulk("challenge vector", &format!("{} {} lists of round challenges, {} points", F::NAME, ls.len(), xs.len()), || {
        let mut cnt = 0;
        for us in &ls {
            let k = us.len();
            let fu: Vec<F> = us.iter().map(|u| F::of(u)).collect();
            let s = halo_s(&fu);
            ensure!(s.len() == 1 << k, "length {}", s.len());
            // The first round challenge decides between the halves, the last one between neighbours.
            let want: Vec<B> = (0..1usize << k).map(|i| (0..k).fold(b(1), |a, j| {
                let bit = i >> (k - 1 - j) & 1;
                mul(&a, &if bit == 1 { us[j].clone() } else { inv(&us[j], &p) }, &p)
            })).collect();
            for i in 0..s.len() { ensure!(s[i].reduced() && s[i].val() == want[i], "halo_s({:?})[{}] = {}, expected {}", us, i, s[i].val(), want[i]); }
            for x in &xs {
                let g = halo_g(F::of(x), &fu);
                ensure!(g.reduced() && g.val() == peval(&want, x, &p), "halo_g({}, {:?}) = {}, expected {}", x, us, g.val(), peval(&want, x, &p));
                cnt += 1;
            }
        }
        Ok(cnt)
    });
}

fn n_ref<C: Hx>(bits: &[bool]) -> B where C::BaseField: Fx, C::ScalarField: Fx {
    // Signed base-2 digits, most significant first: digit (sign = low bit) goes to the zeta part if the high bit is set.
    let p = C::ScalarField::order();
    let (mut a, mut c) = (b(0), b(0));
    for ch in bits.chunks(2) {
        a = add(&a, &a, &p); c = add(&c, &c, &p);
        let s = if ch[0] { b(1) } else { &p - 1u32 };
        if ch[1] { a = add(&a, &s, &p) } else { c = add(&c, &s, &p) }
    }
    add(&mul(&a, &C::ZETA_SCALAR.val(), &p), &c, &p)
}
fn endo<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let g = of_aff(&C::GENERATOR_AFFINE).unwrap();
    let c = crv::<C>();
    ctx.bulk("endomorphism", &format!("{} points", C::CNAME), || {
        let p = C::BaseField::order();
        let mut cnt = 0;
        for i in 1..ctx.tier(12u64, 100) {
            let q = c.mul(&b(i * i), &g);
            let e = aff::<C>(&q).endomorphism();
            sa::<C>(&e, &c.mul(&C::ZETA_SCALAR.val(), &q), &|| format!("endomorphism of {} G", i * i))?;
            let (x, y) = q.unwrap();
            sa::<C>(&e, &Some((mul(&x, &C::ZETA.val(), &p), y)), &|| "endomorphism".to_string())?;
            cnt += 1;
        }
        ensure!(aff::<C>(&None).endomorphism().zero, "endomorphism of the identity");
        Ok(cnt)
    });
    let max = ctx.tier(10usize, 14);
    ctx.bulk("n", &format!("{} every bit string of even length up to {}", C::CNAME, max), || {
        let mut seen: HashMap<B, (usize, u32)> = HashMap::new();
        let mut cnt = 0;
        let pts: Vec<Pt> = vec![g.clone(), c.mul(&generic::<C::ScalarField>(3).val(), &g)];
        for l in (2..=max).step_by(2) {
            seen.clear();
            for m in 0..1u32 << l {
                let bits: Vec<bool> = (0..l).map(|i| m >> i & 1 == 1).collect();
                let v = halo_n::<C>(&bits);
                let w = n_ref::<C>(&bits);
                ensure!(v.reduced() && v.val() == w, "n({:?}) = {}, expected {}", bits, v.val(), w);
                if let Some(o) = seen.insert(w.clone(), (l, m)) { return Err(format!("n is the same for {:?} and {:?}", o, (l, m))); }
                if l <= 8 || m % 64 == 5 { for q in &pts { sa::<C>(&halo_n_mul(&bits, aff::<C>(q)), &c.mul(&w, q), &|| format!("[n({:?})] P", bits))?; } }
                cnt += 1;
            }
        }
        Ok(cnt)
    });
    ctx.bulk("n", &format!("{} scalars of 128 bits", C::CNAME), || {
        let mut cnt = 0;
        let mut seen: HashMap<B, u128> = HashMap::new();
        let mut vals: Vec<u128> = vec![0, 1, 2, 3, u128::max_value(), u128::max_value() >> 1];
        for k in 0..128 { vals.push(1u128 << k); vals.push(!(1u128 << k)); }
        for i in 0..ctx.tier(50, 2000) { vals.push((mix(i) as u128) << 64 | mix(i + 99999) as u128); }
        vals.sort(); vals.dedup();
        for v in vals {
            let bits: Vec<bool> = (0..128).map(|i| v >> i & 1 == 1).collect();
            let w = n_ref::<C>(&bits);
            ensure!(halo_n::<C>(&bits).val() == w, "n({:x})", v);
            if let Some(o) = seen.insert(w.clone(), v) { return Err(format!("n is the same for {:x} and {:x}", o, v)); }
            sa::<C>(&halo_n_mul(&bits, aff::<C>(&g)), &c.mul(&w, &g), &|| format!("[n({:x})] G", v))?;
            cnt += 1;
        }
        Ok(cnt)
    });
}

#[derive(Clone)]
struct Ipa<C: HaloCurve> {
    l: Vec<AffinePoint<C>>, r: Vec<AffinePoint<C>>, g: AffinePoint<C>, com: ProjectivePoint<C>, val: C::ScalarField, hb: C::ScalarField,
    us: Vec<C::ScalarField>, up: ProjectivePoint<C>, h: AffinePoint<C>, c: C::ScalarField, s: SchnorrProof<C>,
}
impl<C: HaloCurve> Ipa<C> {
    fn ok(&self) -> bool { verify_ipa(&self.l, &self.r, self.g, self.com, self.val, self.hb, &self.us, self.up, self.h, self.c, self.s) }
}

fn open<C: Hx>(ctx: &'static Ctx, k: usize, polys: &[Vec<B>], points: &[B], blind: bool, alter: bool, label: &str) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.case("opening", &format!("{} degree={} {}", C::CNAME, 1 << k, label), || {
        let n = 1usize << k;
        let q = C::ScalarField::order();
        let f = |v: &B| C::ScalarField::of(v);
        let (logs, hlog, ulog) = (dl::<C>(n), generic::<C::ScalarField>(500).val(), generic::<C::ScalarField>(501).val());
        let g0 = of_aff(&C::GENERATOR_AFFINE).unwrap();
        let cv = crv::<C>();
        let h = aff::<C>(&cv.mul(&hlog, &g0));
        let ucurve = aff::<C>(&cv.mul(&ulog, &g0));
        let ga: Vec<AffinePoint<C>> = gens::<C>(n).iter().map(|p| aff::<C>(p)).collect();
        let pre = msm_precompute(&AffinePoint::batch_to_projective(&ga), 5);
        let co: Vec<Vec<C::ScalarField>> = polys.iter().map(|c| c.iter().map(|x| f(x)).collect()).collect();
        // Commitments to zero-padded lists; the opened lists keep their own length.
        let padded: Vec<Vec<C::ScalarField>> = co.iter().map(|c| { let mut c = c.clone(); c.resize(n, f(&b(0))); c }).collect();
        let coms: Vec<PolynomialCommitment<C>> = padded.iter().map(|c| PolynomialCommitment::coeffs_to_commitment(c, &pre, h, blind)).collect();
        let (u, v, us_) = (generic::<C::ScalarField>(31), generic::<C::ScalarField>(32), generic::<C::ScalarField>(33));
        let pts: Vec<C::ScalarField> = points.iter().map(|x| f(x)).collect();
        let mut ch = Challenger::<C::BaseField>::new(128);
        ch.observe_element(C::BaseField::u(k as u64 + 1));
        let start = ch.clone();
        let refs: Vec<&[C::ScalarField]> = co.iter().map(|c| &c[..]).collect();
        let pr = batch_opening_proof(&refs, &coms, &pts, &ga, h.to_projective(), ucurve, u, v, us_, n, 128, &mut ch).map_err(|e| e.to_string())?;
        ensure!(pr.halo_l.len() == k && pr.halo_r.len() == k, "{} rounds for degree {}", pr.halo_l.len(), n);
        // The verifier's side, from the definition.
        let bits = |x: &B| -> Vec<bool> { (0..128).map(|i| x.bit(i)).collect() };
        let mut c2 = start;
        let mut us = vec![];
        for i in 0..k {
            c2.observe_affine_points(&[pr.halo_l[i], pr.halo_r[i]]);
            let r = c2.get_challenge().val();
            let s = n_ref::<C>(&bits(&r));
            us.push(f(&s).square_root().ok_or("the prover kept a challenge whose image is not a square")?);
        }
        c2.observe_affine_point(pr.schnorr_proof.r);
        let sc = f(&c2.get_challenge().val());
        let usv: Vec<B> = us.iter().map(|x| x.val()).collect();
        let svec: Vec<B> = (0..n).map(|i| (0..k).fold(b(1), |a, j| mul(&a, &if i >> (k - 1 - j) & 1 == 1 { usv[j].clone() } else { inv(&usv[j], &q) }, &q))).collect();
        sa::<C>(&pr.halo_g, &com::<C>(&svec, &b(0), &logs, &hlog), &|| "final G".to_string())?;
        let scal: Vec<B> = (0..polys.len()).map(|i| n_ref::<C>(&bits(&pw(&u.val(), &b(i as u64), &q)))).collect();
        let mut cm: Pt = None;
        for (c, s) in coms.iter().zip(&scal) { cm = cv.add(&cm, &cv.mul(s, &of_aff(&c.to_affine())?)); }
        let mut val = b(0);
        let mut hb = b(0);
        for (j, x) in points.iter().enumerate() {
            let vp = pw(&v.val(), &b(j as u64), &q);
            for (c, s) in polys.iter().zip(&scal) { val = add(&val, &mul(&mul(&vp, s, &q), &peval(c, x, &q), &q), &q); }
            hb = add(&hb, &mul(&vp, &peval(&svec, x, &q), &q), &q);
        }
        let up = cv.mul(&n_ref::<C>(&bits(&us_.val())), &aff_pt::<C>(&ucurve)?);
        let honest: Ipa<C> = Ipa { l: pr.halo_l.clone(), r: pr.halo_r.clone(), g: pr.halo_g, com: aff::<C>(&cm).to_projective(), val: f(&val), hb: f(&hb), us, up: aff::<C>(&up).to_projective(), h, c: sc, s: pr.schnorr_proof };
        ensure!(honest.ok(), "an honest opening is refused");
        if !alter { return Ok(()); }
        // Every component, altered in several ways.
        let one = <C::ScalarField as Field>::ONE;
        let gg = C::GENERATOR_AFFINE;
        let pts_of = |p: &AffinePoint<C>| -> Vec<AffinePoint<C>> { vec![-*p, gg, AffinePoint::ZERO, (p.to_projective() + gg.to_projective()).to_affine(), p.endomorphism()] };
        let fs_of = |x: &C::ScalarField| vec![*x + one, *x - one, -*x, C::ScalarField::ZERO, x.double()];
        let mut bad: Vec<(String, Ipa<C>)> = vec![];
        macro_rules! pt { ($nm:expr, $($p:tt)+) => { for (i, z) in pts_of(&honest.$($p)+).into_iter().enumerate() { if z.zero == honest.$($p)+.zero && (z.zero || (z.x == honest.$($p)+.x && z.y == honest.$($p)+.y)) { continue; } let mut a = honest.clone(); a.$($p)+ = z; bad.push((format!("{} replaced ({})", $nm, i), a)); } } }
        macro_rules! fd { ($nm:expr, $($p:tt)+) => { for (i, z) in fs_of(&honest.$($p)+).into_iter().enumerate() { if z == honest.$($p)+ { continue; } let mut a = honest.clone(); a.$($p)+ = z; bad.push((format!("{} replaced ({})", $nm, i), a)); } } }
        for i in 0..k { pt!(format!("L_{}", i), l[i]); pt!(format!("R_{}", i), r[i]); }
        pt!("final point", g); pt!("Schnorr R", s.r);
        fd!("value", val); fd!("Schnorr z1", s.z1); fd!("Schnorr z2", s.z2); // With a zero polynomial, no round and no blinding the challenge multiplies the identity.
        if k > 0 || blind || !honest.val.is_zero() { fd!("Schnorr challenge", c); }
        if honest.hb != C::ScalarField::ZERO { fd!("b", hb); }
        for (i, d) in [gg.to_projective(), h.to_projective(), ucurve.to_projective()].iter().enumerate() { let mut a = honest.clone(); a.com = a.com + *d; bad.push((format!("commitment shifted ({})", i), a)); }
        for i in 0..k {
            for (m, z) in fs_of(&honest.us[i]).into_iter().enumerate() {
                // Only the square of a round challenge enters this equation.
                if z.square() == honest.us[i].square() || z.is_zero() { continue; }
                let mut a = honest.clone(); a.us[i] = z; bad.push((format!("round challenge {} replaced ({})", i, m), a));
            }
            for j in 0..i {
                let mut a = honest.clone(); a.l.swap(i, j); bad.push((format!("L_{} and L_{} swapped", i, j), a));
                let mut a = honest.clone(); a.r.swap(i, j); bad.push((format!("R_{} and R_{} swapped", i, j), a));
                let mut a = honest.clone(); a.us.swap(i, j); bad.push((format!("u_{} and u_{} swapped", i, j), a));
            }
            let mut a = honest.clone(); let t = a.l[i]; a.l[i] = a.r[i]; a.r[i] = t; bad.push((format!("L_{} and R_{} swapped", i, i), a));
        }
        for (nm, a) in bad { ensure!(!a.ok(), "accepted with {}", nm); }
        Ok(())
    });
}
fn aff_pt<C: Cx>(q: &AffinePoint<C>) -> Result<Pt, String> where C::BaseField: Fx, C::ScalarField: Fx { of_aff(q) }

struct Job { k: usize, polys: Vec<Vec<B>>, points: Vec<B>, blind: bool, alter: bool, label: String }
fn openings<C: Hx>(ctx: &'static Ctx, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let q = C::ScalarField::order();
    let ge = |i: u64| generic::<C::ScalarField>(i).val();
    let mut jobs = vec![];
    for k in 0..=ctx.tier(if full { 3 } else { 2 }, if full { 7 } else { 4 }) {
        let n = 1usize << k;
        let w = C::ScalarField::primitive_root_of_unity(k.max(1)).val();
        // Polynomials: zero, constants, top coefficient only, full, shorter than the degree.
        let mut top = vec![b(0); n]; top[n - 1] = b(1);
        let pool: Vec<(&str, Vec<B>)> = vec![
            ("0", vec![b(0); n]), ("1", vec![b(1)]), ("-1..", vec![&q - 1u32; n]), ("X^(n-1)", top),
            ("generic", (0..n as u64).map(|i| ge(40 + i)).collect()), ("short", (0..(n as u64 + 1) / 2).map(|i| ge(90 + i)).collect()), ("empty", vec![]),
        ];
        let ptsets: Vec<(&str, Vec<B>)> = vec![("z", vec![ge(1)]), ("0", vec![b(0)]), ("1", vec![b(1)]), ("w", vec![w.clone()]),
            ("z,wz", vec![ge(1), mul(&ge(1), &w, &q)]), ("z,wz,w65z", vec![ge(1), mul(&ge(1), &w, &q), mul(&ge(1), &pw(&w, &b(65), &q), &q)]), ("z,z", vec![ge(2), ge(2)]), ("none", vec![])];
        for (i, (pn, ps)) in pool.iter().enumerate() {
            for (j, (tn, ts)) in ptsets.iter().enumerate() {
                for blind in &[true, false] {
                    if !full && !ctx.thorough && (!*blind || ![0, 4, 5].contains(&j)) { continue; }
                    let alter = (i == 4 || (i == 0 && j == 4) || (i == 3 && j == 5)) && ts.len() > 0;
                    jobs.push(Job { k, polys: vec![ps.clone()], points: ts.clone(), blind: *blind, alter, label: format!("[{}] at {} blinding={}", pn, tn, blind) });
                    let o = &pool[(i + j + 1) % pool.len()];
                    if i % 2 == 0 || ctx.thorough { jobs.push(Job { k, polys: vec![ps.clone(), o.1.clone()], points: ts.clone(), blind: *blind, alter: j == 5, label: format!("[{}, {}] at {} blinding={}", pn, o.0, tn, blind) }); }
                }
            }
        }
        jobs.push(Job { k, polys: pool.iter().map(|p| p.1.clone()).collect(), points: ptsets[5].1.clone(), blind: true, alter: true, label: "all polynomials at three points".to_string() });
        jobs.push(Job { k, polys: vec![], points: ptsets[5].1.clone(), blind: true, alter: false, label: "no polynomial".to_string() });
        jobs.push(Job { k, polys: (0..33).map(|i| pool[i % pool.len()].1.clone()).collect(), points: ptsets[5].1.clone(), blind: true, alter: false, label: "33 polynomials at three points".to_string() });
    }
    ctx.par(jobs, move |j| open::<C>(ctx, j.k, &j.polys, &j.points, j.blind, j.alter, &j.label));
}

fn main() {
    run("C21", "exploration", "distinct = one commitment, challenge list and point, bit string, or opening with all its alterations", |ctx| {
        ctx.par((0..12usize).collect(), move |&i| match i {
            0 => commitments::<Tweedledee>(ctx), 1 => commitments::<Tweedledum>(ctx), 2 => commitments::<Pallas>(ctx), 3 => commitments::<Vesta>(ctx),
            4 => endo::<Tweedledee>(ctx), 5 => endo::<Tweedledum>(ctx), 6 => endo::<Pallas>(ctx), 7 => endo::<Vesta>(ctx),
            8 => svec::<TweedledeeBase>(ctx), 9 => svec::<TweedledumBase>(ctx), 10 => svec::<PallasBase>(ctx), _ => svec::<VestaBase>(ctx),
        });
        openings::<Tweedledee>(ctx, true); openings::<Tweedledum>(ctx, false); openings::<Pallas>(ctx, false); openings::<Vesta>(ctx, false);
    })
}
