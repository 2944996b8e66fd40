//! C18: every single alteration (and every alteration of the shape) of an accepted tuple is refused, without a panic.
use mc::adv::Adv;
use mc::alpha::*;
use mc::circ::*;
use mc::*;
use plonky::*;
use std::sync::Arc;

type S<C> = <C as Curve>::ScalarField;

#[derive(Clone)]
struct T<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { pis: Vec<S<C>>, p: Proof<C>, old: Vec<OldProof<C>>, vk: VerificationKey<C> }

fn tuple<C: Hx>(pis: usize, olds: usize, pad: usize) -> Result<T<C>, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = chain::<C>(pis, 1, pad);
    let mut vk = c.to_vk(); vk.clear_msm_precomputation();
    let mut old = vec![];
    for i in 0..olds as u64 {
        let (p, q) = proof_of(&c, &t, 10 + i, &[], true);
        old.push(verify_proof::<C, C::Inner>(&q, &p, &[], &vk, false).map_err(|e| format!("{}", e))?.ok_or("no deferred data")?);
    }
    let (p, pis) = proof_of(&c, &t, 20, &old, true);
    Ok(T { pis, p, old, vk })
}

/// References to everything there is to alter, with names.
enum Slot<'a, C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { E(&'a mut S<C>), P(&'a mut AffinePoint<C>) }
fn slots<C: Hx>(t: &mut T<C>) -> Vec<(String, Slot<C>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut v: Vec<(String, Slot<C>)> = vec![];
    for (i, x) in t.pis.iter_mut().enumerate() { v.push((format!("public input {}", i), Slot::E(x))); }
    let p = &mut t.p;
    for (s, o) in vec![("local", &mut p.o_local), ("right", &mut p.o_right), ("below", &mut p.o_below)] {
        for (nm, l) in vec![("constant", &mut o.o_constants), ("sigma", &mut o.o_plonk_sigmas), ("wire", &mut o.o_wires), ("t", &mut o.o_plonk_t), ("old proof", &mut o.o_old_proofs)] {
            for (i, x) in l.iter_mut().enumerate() { v.push((format!("{} opening {} {}", s, nm, i), Slot::E(x))); }
        }
        v.push((format!("{} opening Z", s), Slot::E(&mut o.o_plonk_z)));
        v.push((format!("{} opening of the public input quotient", s), Slot::E(&mut o.o_pi_quotient)));
    }
    v.push(("Schnorr z1".into(), Slot::E(&mut p.schnorr_proof.z1)));
    v.push(("Schnorr z2".into(), Slot::E(&mut p.schnorr_proof.z2)));
    v.push(("Schnorr R".into(), Slot::P(&mut p.schnorr_proof.r)));
    for (nm, l) in vec![("wire commitment", &mut p.c_wires), ("t commitment", &mut p.c_plonk_t), ("L", &mut p.halo_l), ("R", &mut p.halo_r)] {
        for (i, x) in l.iter_mut().enumerate() { v.push((format!("{} {}", nm, i), Slot::P(x))); }
    }
    v.push(("Z commitment".into(), Slot::P(&mut p.c_plonk_z)));
    v.push(("public input quotient commitment".into(), Slot::P(&mut p.c_pis_quotient)));
    v.push(("G".into(), Slot::P(&mut p.halo_g)));
    for (i, o) in t.old.iter_mut().enumerate() {
        v.push((format!("G of old proof {}", i), Slot::P(&mut o.halo_g)));
        for (k, x) in o.halo_us.iter_mut().enumerate() { v.push((format!("challenge {} of old proof {}", k, i), Slot::E(x))); }
    }
    for (i, x) in t.vk.c_constants.iter_mut().enumerate() { v.push((format!("key constant {}", i), Slot::P(x))); }
    for (i, x) in t.vk.c_s_sigmas.iter_mut().enumerate() { v.push((format!("key sigma {}", i), Slot::P(x))); }
    v
}
fn elem_faults<F: Fx>(x: F) -> Vec<(&'static str, F)> {
    let one = <F as Field>::ONE;
    vec![("+ 1", x + one), ("- 1", x - one), ("negated", -x), (":= 0", F::ZERO), (":= 1", one), (":= -1, which need not fit the other field", F::NEG_ONE), ("doubled", x + x), (":= a generic value", generic::<F>(4242))]
}
/// (name, point, is it a well-formed point of the curve).
fn point_faults<C: Hx>(q: AffinePoint<C>) -> Vec<(&'static str, AffinePoint<C>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let raw = |x, y, zero| AffinePoint::<C> { x, y, zero };
    let one = <C::BaseField as Field>::ONE;
    let z = C::BaseField::ZERO;
    vec![("negated", -q), ("doubled", q.to_projective().double().to_affine()), ("+ G", (q.to_projective() + C::GENERATOR_PROJECTIVE).to_affine()), (":= G", C::GENERATOR_AFFINE),
        ("x times the endomorphism's constant", raw(q.x * C::ZETA, q.y, q.zero)), ("the identity", AffinePoint::ZERO), ("flagged as the identity", raw(q.x, q.y, true)),
        ("x + 1, off the curve", raw(q.x + one, q.y, false)), ("y + 1, off the curve", raw(q.x, q.y + one, false)), ("(0, 0) flagged as finite", raw(z, z, false)), ("y := 0", raw(q.x, z, false)), ("coordinates exchanged", raw(q.y, q.x, false))]
}
/// The transcript has no valid challenges for most alterations (each u_j must be a square); whoever alters a proof may
/// pick other L_j until it has. None if it is valid already, that takes too long or the transcript is invalid for another reason.
fn mend<C: Hx>(t: &T<C>) -> Option<T<C>> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut t = t.clone();
    if t.p.halo_l.len() != t.p.halo_r.len() { return None; }
    let p = &t.p;
    // The transcript up to the rounds, as a prover keeps it; whether it is the verifier's own does not matter for soundness.
    let mut ch = plonky::plonk_challenger::Challenger::<C::BaseField>::new(128);
    let points = |ch: &mut plonky::plonk_challenger::Challenger<C::BaseField>, l: &[AffinePoint<C>]| catch(|| ch.observe_affine_points(l)).ok();
    ch.observe_elements(&S::<C>::try_convert_all(&t.pis).ok()?);
    points(&mut ch, &p.c_wires)?;
    ch.get_2_challenges();
    points(&mut ch, &[p.c_plonk_z])?;
    ch.get_challenge();
    points(&mut ch, &p.c_plonk_t)?;
    points(&mut ch, &[p.c_pis_quotient])?;
    for o in &t.old { points(&mut ch, &[o.halo_g])?; for &u in &o.halo_us { ch.observe_element(C::try_convert_s2b(u).ok()?); } }
    ch.get_challenge();
    for o in p.all_opening_sets() { for &x in &o.to_vec() { ch.observe_element(C::try_convert_s2b(x).ok()?); } }
    ch.get_3_challenges();
    let mut moved = false;
    for j in 0..t.p.halo_l.len() {
        let (mut a, b) = (t.p.halo_l[j], t.p.halo_r[j]);
        for k in 0.. {
            if k == 24 { return None; }
            let mut c = ch.clone();
            if a.is_valid() && points(&mut c, &[a, b]).is_some() {
                let r = c.get_challenge().try_convert::<S<C>>().ok()?;
                if plonk_util::halo_n::<C>(&r.to_canonical_bool_vec()[..128]).is_quadratic_residue() { ch = c; break; }
            } else { a = C::GENERATOR_AFFINE; }
            a = (a.to_projective() + C::GENERATOR_PROJECTIVE).to_affine();
        }
        moved |= t.p.halo_l[j] != a;
        t.p.halo_l[j] = a;
    }
    if moved { Some(t) } else { None }
}
/// Refused, both as it is and with other L_j that make the transcript valid. The alterations that leave the tuple as it is are skipped by the callers.
fn refused<C: Hx>(t: &T<C>, what: &str, both: bool, mended: bool) -> R where C::BaseField: Fx, C::ScalarField: Fx {
    let one = |t: &T<C>, what: &str, full: bool| {
        match catch(|| verify_proof::<C, C::Inner>(&t.pis, &t.p, &t.old, &t.vk, full).is_err()) {
            Err(e) => Err(format!("{} (full = {}): panic: {}", what, full, e)),
            Ok(r) => { ensure!(r, "{} (full = {}): accepted", what, full); Ok(()) }
        }
    };
    one(t, what, true)?;
    if both { one(t, what, false)?; }
    if !mended { return Ok(()); }
    if let Some(m) = catch(|| mend(t))? { MENDED.fetch_add(1, std::sync::atomic::Ordering::Relaxed); one(&m, &format!("{}, L mended", what), true)?; }
    Ok(())
}
static MENDED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn single<C: Hx>(ctx: &'static Ctx, base: &Arc<Sh<T<C>>>, nm: String) where C::BaseField: Fx, C::ScalarField: Fx {
    let n = slots(&mut (***base).clone()).len();
    let base = base.clone();
    ctx.par((0..n).collect(), move |&i| {
        let mut t0: T<C> = (**base).clone();
        let name = slots(&mut t0)[i].0.clone();
        ctx.bulk("single alterations", &format!("{} {}", nm, name), || {
            let mut cnt = 0;
            for f in 0..20 {
                let mut t: T<C> = (**base).clone();
                let what = {
                    let mut s = slots(&mut t);
                    match &mut s[i].1 {
                        Slot::E(x) => { let a = elem_faults::<S<C>>(**x); if f >= a.len() { break; } if a[f].1 == **x { continue; } **x = a[f].1; a[f].0 }
                        Slot::P(q) => { let a = point_faults::<C>(**q); if f >= a.len() { break; } if q.zero || a[f].1 == **q { continue; } if name.starts_with("key") && f > 4 { continue; } /* the key is trusted: its points are well formed */ **q = a[f].1; a[f].0 }
                    }
                };
                refused(&t, &format!("{}: {}", name, what), ctx.thorough, ctx.thorough || what == ":= 0" || what == ":= a generic value" || what == "+ G")?; cnt += 1;
            }
            Ok(cnt)
        });
    });
}

fn lists<C: Hx>(t: &mut T<C>) -> Vec<(String, L<C>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut v = vec![("public inputs".to_string(), L::E(vec![&mut t.pis]))];
    let p = &mut t.p;
    v.push(("wire commitments".into(), L::P(vec![&mut p.c_wires])));
    v.push(("t commitments".into(), L::P(vec![&mut p.c_plonk_t])));
    v.push(("key constants".into(), L::P(vec![&mut t.vk.c_constants])));
    v.push(("key sigmas".into(), L::P(vec![&mut t.vk.c_s_sigmas])));
    v.push(("L".into(), L::P(vec![&mut p.halo_l])));
    v.push(("R".into(), L::P(vec![&mut p.halo_r])));
    for (s, o) in vec![("local", &mut p.o_local), ("right", &mut p.o_right), ("below", &mut p.o_below)] {
        v.push((format!("{} constants", s), L::E(vec![&mut o.o_constants]))); v.push((format!("{} sigmas", s), L::E(vec![&mut o.o_plonk_sigmas])));
        v.push((format!("{} wires", s), L::E(vec![&mut o.o_wires]))); v.push((format!("{} t", s), L::E(vec![&mut o.o_plonk_t]))); v.push((format!("{} old proofs", s), L::E(vec![&mut o.o_old_proofs])));
    }
    v
}
/// The same list in all three opening sets; and L with R, commitments with their openings.
fn groups<C: Hx>(t: &mut T<C>) -> Vec<(String, Vec<L<C>>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let p = &mut t.p;
    let (a, b, c) = (&mut p.o_local, &mut p.o_right, &mut p.o_below);
    vec![
        ("L and R".into(), vec![L::P(vec![&mut p.halo_l, &mut p.halo_r])]),
        ("constant openings".into(), vec![L::E(vec![&mut a.o_constants, &mut b.o_constants, &mut c.o_constants])]),
        ("sigma openings".into(), vec![L::E(vec![&mut a.o_plonk_sigmas, &mut b.o_plonk_sigmas, &mut c.o_plonk_sigmas])]),
        ("wires and their openings".into(), vec![L::P(vec![&mut p.c_wires]), L::E(vec![&mut a.o_wires, &mut b.o_wires, &mut c.o_wires])]),
        ("t and its openings".into(), vec![L::P(vec![&mut p.c_plonk_t]), L::E(vec![&mut a.o_plonk_t, &mut b.o_plonk_t, &mut c.o_plonk_t])]),
        ("old proof openings".into(), vec![L::E(vec![&mut a.o_old_proofs, &mut b.o_old_proofs, &mut c.o_old_proofs])]),
    ]
}
enum L<'a, C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { E(Vec<&'a mut Vec<S<C>>>), P(Vec<&'a mut Vec<AffinePoint<C>>>) }
fn edit<X: Clone + PartialEq>(l: &mut Vec<X>, how: usize, filler: X) -> Option<String> {
    let n = l.len();
    let (k, i) = (how % 6, how / 6);
    let b = l.clone();
    let d = match k {
        0 => { if i >= n { return None; } l.remove(i); format!("entry {} dropped", i) }
        1 => { if i >= n { return None; } let x = l[i].clone(); l.insert(i, x); format!("entry {} duplicated", i) }
        2 => { if i > n { return None; } l.insert(i, filler); format!("entry inserted at {}", i) }
        3 => { if i + 1 >= n { return None; } l.swap(i, i + 1); format!("entries {} and {} exchanged", i, i + 1) }
        4 => match i { 0 => { l.clear(); "emptied".into() } 1 => { l.reverse(); "reversed".into() } 2 => { l.extend(b.clone()); "doubled".into() } 3 => { l.truncate(n / 2); "halved".into() } 4 => { l.truncate(1); "cut to one".into() } _ => return None },
        _ => { if i >= n || n < 2 || i == 0 { return None; } l.rotate_left(i); format!("rotated by {}", i) }
    };
    if *l == b { return Some(String::new()); }
    Some(d)
}
fn shapes<C: Hx>(ctx: &'static Ctx, base: &Arc<Sh<T<C>>>, nm: String) where C::BaseField: Fx, C::ScalarField: Fx {
    let (n1, n2) = (lists(&mut (***base).clone()).len(), groups(&mut (***base).clone()).len());
    let base = base.clone();
    ctx.par((0..n1 + n2 + 1).collect(), move |&i| {
        let name = if i < n1 { lists(&mut (**base).clone())[i].0.clone() } else if i < n1 + n2 { groups(&mut (**base).clone())[i - n1].0.clone() } else { "old proofs".into() };
        ctx.bulk("alterations of a list", &format!("{} {}", nm, name), || {
            let mut cnt = 0;
            let mut none = 0;
            for how in 0.. {
                let mut t: T<C> = (**base).clone();
                let d = if i < n1 {
                    let mut l = lists(&mut t);
                    match &mut l[i].1 { L::E(v) => edit(v[0], how, generic::<S<C>>(1)), L::P(v) => edit(v[0], how, C::GENERATOR_AFFINE) }
                } else if i < n1 + n2 {
                    let mut l = groups(&mut t);
                    let mut d = None;
                    for g in l[i - n1].1.iter_mut() {
                        match g { L::E(v) => for x in v { let e = edit(x, how, generic::<S<C>>(1)); if d.is_none() || d == Some(String::new()) { d = e; } }, L::P(v) => for x in v { let e = edit(x, how, C::GENERATOR_AFFINE); if d.is_none() || d == Some(String::new()) { d = e; } } }
                    }
                    d
                } else {
                    // Old proofs as wholes (edit needs equality: compare by position through indices).
                    let o = t.old.clone();
                    let mut idx: Vec<usize> = (0..o.len()).collect();
                    let d = edit(&mut idx, how, usize::max_value());
                    t.old = idx.iter().map(|k| if *k < o.len() { o[*k].clone() } else { OldProof { halo_g: t.p.halo_g, halo_us: vec![generic::<S<C>>(2); t.p.halo_l.len()] } }).collect();
                    d
                };
                match d { None => { none += 1; if none > 12 { break; } continue; } Some(s) if s.is_empty() => continue, Some(s) => { none = 0; refused(&t, &format!("{}: {}", name, s), ctx.thorough, ctx.thorough || how < 6 || how % 6 == 4)?; cnt += 1; } }
            }
            Ok(cnt)
        });
    });
}

/// Sizes in the key, values that mean nothing, and components traded between places.
fn special<C: Hx>(ctx: &'static Ctx, base: &Arc<Sh<T<C>>>, other: &Arc<Sh<T<C>>>, nm: String) where C::BaseField: Fx, C::ScalarField: Fx {
    let (base, other) = (base.clone(), other.clone());
    let one = <S::<C> as Field>::ONE;
    type Ed<C> = Box<dyn Fn(&mut T<C>, &T<C>) -> bool + Send + Sync>;
    let mut e: Vec<(String, Ed<C>)> = vec![];
    fn put<C: Hx>(e: &mut Vec<(String, Ed<C>)>, n: String, f: impl Fn(&mut T<C>, &T<C>) -> bool + Send + Sync + 'static) where C::BaseField: Fx, C::ScalarField: Fx { e.push((n, Box::new(f))) }
    for k in 1..4 { put(&mut e, format!("key degree times {}", 1 << k), move |t, _| { t.vk.degree <<= k; true }); put(&mut e, format!("key degree divided by {}", 1 << k), move |t, _| { t.vk.degree >>= k; t.vk.degree > 0 }); }
    for d in 1..12usize {
        put(&mut e, format!("key expects {} more public inputs", d), move |t, _| { t.vk.num_public_inputs += d; true });
        put(&mut e, format!("key expects {} fewer public inputs", d), move |t, _| { if t.vk.num_public_inputs < d { return false; } t.vk.num_public_inputs -= d; true });
        put(&mut e, format!("{} public inputs too many, key changed too", d), move |t, _| { t.vk.num_public_inputs += d; t.pis.extend(vec![S::<C>::ONE_(); d]); true });
        put(&mut e, format!("{} public inputs too few, key changed too", d), move |t, _| { if t.pis.len() < d { return false; } let n = t.pis.len() - d; t.vk.num_public_inputs = n; t.pis.truncate(n); true });
    }
    for d in 1..5usize {
        put(&mut e, format!("key's public input rows {} later", d), move |t, _| { if t.pis.is_empty() { return false; } t.vk.num_gates_without_pis += d; t.vk.num_gates_without_pis < t.vk.degree });
        put(&mut e, format!("key's public input rows {} earlier", d), move |t, _| { if t.pis.is_empty() || t.vk.num_gates_without_pis < d { return false; } t.vk.num_gates_without_pis -= d; true });
    }
    for b in vec![0usize, 2, 64, 126] { put(&mut e, format!("key security bits {}", b), move |t, _| { t.vk.security_bits = b; true }); }
    // Opening sets traded; commitments traded; parts of another accepted proof for the same key.
    put(&mut e, "local and right openings exchanged".into(), |t, _| { std::mem::swap(&mut t.p.o_local, &mut t.p.o_right); true });
    put(&mut e, "local and below openings exchanged".into(), |t, _| { std::mem::swap(&mut t.p.o_local, &mut t.p.o_below); true });
    put(&mut e, "right and below openings exchanged".into(), |t, _| { std::mem::swap(&mut t.p.o_right, &mut t.p.o_below); true });
    put(&mut e, "below openings := right openings".into(), |t, _| { t.p.o_below = t.p.o_right.clone(); true });
    put(&mut e, "L and R exchanged".into(), |t, _| { std::mem::swap(&mut t.p.halo_l, &mut t.p.halo_r); true });
    for j in 0..3 { put(&mut e, format!("L_{} and R_{} exchanged", j, j), move |t, _| { if j >= t.p.halo_l.len() { return false; } std::mem::swap(&mut t.p.halo_l[j], &mut t.p.halo_r[j]); true }); }
    put(&mut e, "z1 and z2 exchanged".into(), |t, _| { let s = &mut t.p.schnorr_proof; std::mem::swap(&mut s.z1, &mut s.z2); true });
    put(&mut e, "all Schnorr values negated".into(), |t, _| { let s = &mut t.p.schnorr_proof; s.r = -s.r; s.z1 = -s.z1; s.z2 = -s.z2; true });
    put(&mut e, "Schnorr values and G negated".into(), |t, _| { let s = &mut t.p.schnorr_proof; s.z1 = -s.z1; t.p.halo_g = -t.p.halo_g; true });
    put(&mut e, "Z and first t commitment exchanged".into(), |t, _| { let p = &mut t.p; std::mem::swap(&mut p.c_plonk_z, &mut p.c_plonk_t[0]); true });
    put(&mut e, "first and last t commitment and openings exchanged".into(), |t, _| { let p = &mut t.p; let n = p.c_plonk_t.len(); p.c_plonk_t.swap(0, n - 1); for o in vec![&mut p.o_local, &mut p.o_right, &mut p.o_below] { o.o_plonk_t.swap(0, n - 1); } true });
    put(&mut e, "wire 0 and 1 commitments and openings exchanged".into(), |t, _| { let p = &mut t.p; p.c_wires.swap(0, 1); for o in vec![&mut p.o_local, &mut p.o_right, &mut p.o_below] { o.o_wires.swap(0, 1); } true });
    put(&mut e, "wires of the other proof".into(), |t, o| { t.p.c_wires = o.p.c_wires.clone(); true });
    put(&mut e, "openings of the other proof".into(), |t, o| { t.p.o_local = o.p.o_local.clone(); t.p.o_right = o.p.o_right.clone(); t.p.o_below = o.p.o_below.clone(); true });
    put(&mut e, "cross terms of the other proof".into(), |t, o| { t.p.halo_l = o.p.halo_l.clone(); t.p.halo_r = o.p.halo_r.clone(); true });
    put(&mut e, "G of the other proof".into(), |t, o| { t.p.halo_g = o.p.halo_g; true });
    put(&mut e, "Schnorr part of the other proof".into(), |t, o| { t.p.schnorr_proof = o.p.schnorr_proof; true });
    put(&mut e, "opening argument of the other proof".into(), |t, o| { t.p.halo_l = o.p.halo_l.clone(); t.p.halo_r = o.p.halo_r.clone(); t.p.halo_g = o.p.halo_g; t.p.schnorr_proof = o.p.schnorr_proof; true });
    put(&mut e, "public inputs of the other proof".into(), |t, o| { if t.pis.is_empty() { return false; } t.pis = o.pis.clone(); true });
    put(&mut e, "quotient commitments of the other proof".into(), |t, o| { t.p.c_plonk_t = o.p.c_plonk_t.clone(); true });
    put(&mut e, "another circuit's sigmas".into(), |t, _| { t.vk.c_s_sigmas.reverse(); true });
    // The boundary between two lists of openings moved; the sequence of openings, and so the transcript, stays the same.
    for s in 0..3usize { for b in 0..3usize { for fwd in &[false, true] {
        let fwd = *fwd;
        put(&mut e, format!("boundary {} of opening set {} moved {}", b, s, if fwd { "forward" } else { "back" }), move |t, _| {
            let o = match s { 0 => &mut t.p.o_local, 1 => &mut t.p.o_right, _ => &mut t.p.o_below };
            let (x, y) = match b { 0 => (&mut o.o_constants, &mut o.o_plonk_sigmas), 1 => (&mut o.o_plonk_sigmas, &mut o.o_wires), _ => (&mut o.o_plonk_t, &mut o.o_old_proofs) };
            if fwd { if y.is_empty() { return false; } let v = y.remove(0); x.push(v); } else { if x.is_empty() { return false; } let v = x.pop().unwrap(); y.insert(0, v); }
            true });
    } } }
    // Nothing but trivial values.
    for (k, q) in vec![("the identity", AffinePoint::<C>::ZERO), ("G", C::GENERATOR_AFFINE), ("an off-curve point", AffinePoint { x: <C::BaseField as Field>::ONE, y: <C::BaseField as Field>::ONE, zero: false })] {
        for (m, x) in vec![("0", S::<C>::ZERO), ("1", one), ("-1", S::<C>::NEG_ONE)] {
            put(&mut e, format!("all points {} and all elements {}", k, m), move |t, _| {
                let (vk, old) = (t.vk.clone(), t.old.clone());
                for (_, s) in slots(t) { match s { Slot::E(y) => *y = x, Slot::P(y) => *y = q } }
                t.vk = vk; t.old = old; true });
        }
    }
    let n = e.len();
    let e = Arc::new(e);
    ctx.par((0..n).collect(), move |&i| {
        ctx.bulk("sizes, exchanges and trivial proofs", &format!("{} {}", nm, e[i].0), || {
            let mut t: T<C> = (**base).clone();
            if !(e[i].1)(&mut t, &other) { return Ok(0); }
            if t.p == base.p && t.pis == base.pis && e[i].0.starts_with(|c: char| c != 'k') && !e[i].0.contains("key") && !e[i].0.contains("sigmas") { return Ok(0); }
            refused(&t, &e[i].0, true, true)?; Ok(2)
        });
    });
}
trait OneX { fn ONE_() -> Self; }
impl<F: Field> OneX for F { #[allow(non_snake_case)] fn ONE_() -> Self { <F as Field>::ONE } }

/// Encoded proofs with one byte altered: decoding fails or what it gives is refused (unless it is the same proof again).
fn bytes<C: Hx>(ctx: &'static Ctx, base: &Arc<Sh<T<C>>>, nm: String) where C::BaseField: Fx, C::ScalarField: Fx {
    let enc = serde_cbor::to_vec(&base.p).expect("encoding");
    let step = ctx.tier(29, 1);
    ctx.note(format!("{}: encoded proof of {} bytes, every {}th altered", nm, enc.len(), step));
    let (base, enc) = (base.clone(), Arc::new(enc));
    ctx.par((0..enc.len()).step_by(step * 16).collect(), move |&b0| {
        ctx.bulk("encoded proof with a byte altered", &format!("{} bytes from {}", nm, b0), || {
            let mut cnt = 0;
            for b in (b0..(b0 + step * 16).min(enc.len())).step_by(step) {
                for m in ctx.tier(vec![1u8 << (b % 8)], vec![1, 0x20, 0x80]) {
                    let mut v = enc.to_vec(); v[b] ^= m;
                    if let Ok(p) = catch(|| serde_cbor::from_slice::<Proof<C>>(&v)).map_err(|e| format!("decoding panicked: {}", e))? {
                        if p == base.p { continue; }
                        let mut t: T<C> = (**base).clone(); t.p = p;
                        refused(&t, &format!("byte {} xor {:#x}", b, m), false, ctx.thorough && b % 16 == 0)?;
                    }
                    cnt += 1;
                }
            }
            Ok(cnt)
        });
    });
}

/// Malformed points sent by a prover that otherwise follows the protocol: everything before and after is consistent with
/// what was sent, so that no other check stands in for the one on the point.
fn malformed<C: Hx>(ctx: &'static Ctx, pis: usize, kinds: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = chain::<C>(pis, 1, 0);
    let w = c.generate_witness(inputs(&t, 31));
    let (rows, q) = (wit(&w, c.degree()), c.get_public_inputs(&w));
    let old: Vec<OldProof<C>> = { let (p, q) = proof_of(&c, &t, 30, &[], true); vec![verify_proof::<C, C::Inner>(&q, &p, &[], &c.to_vk(), false).expect("deferred verification").expect("deferred data")] };
    let rounds = plonky::util::log2_strict(c.degree());
    let mut slots: Vec<(String, usize)> = vec![("nowhere".into(), 0), ("Z".into(), 0), ("public input quotient".into(), 0), ("old G".into(), 0)];
    for j in 0..WIRES { slots.push(("wire".into(), j)); }
    for j in 0..7 { slots.push(("t".into(), j)); }
    for j in 0..rounds { slots.push(("L".into(), j)); slots.push(("R".into(), j)); }
    let c = Arc::new(Sh(c));
    let mut items = vec![];
    for (s, j) in slots { for k in 0..kinds { if s == "nowhere" && k > 0 { continue; } items.push((s.clone(), j, k)); } }
    ctx.par(items, move |(s, j, k)| {
        let names = ["the identity", "x + 1, off the curve", "y + 1, off the curve", "(0, 0) flagged as finite", "flagged as the identity"];
        ctx.bulk("malformed points sent by a consistent prover", &format!("{} {} {}: {}", C::CNAME, s, j, names[*k]), || {
            let one = <C::BaseField as Field>::ONE;
            let (k, j, s) = (*k, *j, s.as_str());
            let bad = |q: AffinePoint<C>| { let mut r = q; match k { 0 => r = AffinePoint::ZERO, 1 => r.x = r.x + one, 2 => r.y = r.y + one, 3 => { r.x = C::BaseField::ZERO; r.y = C::BaseField::ZERO } _ => r.zero = true } r };
            let mut a = Adv::<C>::new(&c, q.clone(), old.clone());
            if s == "old G" { a.old[0].halo_g = bad(a.old[0].halo_g); }
            let mut go = || -> R {
                a.wires(&rows); if s == "wire" { a.p.c_wires[j] = bad(a.p.c_wires[j]); }
                a.grand(&rows, <S<C> as Field>::ONE)?; if s == "Z" { a.p.c_plonk_z = bad(a.p.c_plonk_z); }
                let t = a.terms()?;
                ensure!(a.quotient(&t, &Default::default())?, "the quotient leaves a remainder"); if s == "t" { a.p.c_plonk_t[j] = bad(a.p.c_plonk_t[j]); }
                ensure!(a.pi_quotient()?, "the public input quotient leaves a remainder"); if s == "public input quotient" { a.p.c_pis_quotient = bad(a.p.c_pis_quotient); }
                a.open()?;
                if s == "L" || s == "R" { a.fake = Some((j, s == "L", bad(C::GENERATOR_AFFINE))); }
                a.ipa()
            };
            // A transcript that cannot be continued is refused too.
            if catch(|| go()).map_or(true, |r| r.is_err()) { ensure!(s != "nowhere", "the honest prover fails"); }
            for full in &[true, false] {
                let r = catch(|| a.verify(*full)).map_err(|e| format!("{} {} {} (full = {}): panic: {}", s, j, names[k], full, e))?;
                ensure!(r.is_ok() == (s == "nowhere"), "{} {} {} (full = {}): {:?}", s, j, names[k], full, r);
            }
            Ok(2)
        });
    });
}

/// Proofs of a shape other than the key's by a prover that follows the protocol for that shape, transcript included.
fn ill_shaped<C: Hx>(ctx: &'static Ctx, pis: usize, deep: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = chain::<C>(pis, 1, 0);
    let old: Vec<OldProof<C>> = { let (p, q) = proof_of(&c, &t, 30, &[], true); vec![verify_proof::<C, C::Inner>(&q, &p, &[], &c.to_vk(), false).expect("deferred verification").expect("deferred data")] };
    // The last public input is zero, so that it can be left out without changing the polynomial of the inputs.
    let mut pw = PartialWitness::new();
    for (i, x) in t.iter().enumerate() { pw.set_target(*x, if i + 1 == pis { S::<C>::ZERO } else { generic::<S<C>>(31000 + i as u64) }); }
    let w = c.generate_witness(pw);
    let (rows, q) = (wit(&w, c.degree()), c.get_public_inputs(&w));
    let names = ["as called for", "an empty t commitment and its openings added", "an empty wire commitment and its openings added", "a wire commitment counted as Z, Z as a t commitment", "a zero public input added", "WIRES zero public inputs added", "a zero public input left out",
        "an old proof's openings for an old proof that is not there", "an empty t commitment added, the old proof's openings counted as its", "one Halo round too many", "a t commitment counted as the public input quotient's old proof"];
    let c = Arc::new(Sh(c));
    let lists = ["constant", "sigma", "wire", "t", "old proof"];
    let sets = ["local", "right", "below"];
    let mut names: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    let named = names.len();
    for l in &lists { for s in &sets { for d in &["too many", "too few"] { names.push(format!("one {} {} opening {}", s, l, d)); } } }
    let items: Vec<(usize, usize)> = (0..names.len()).flat_map(|k| (0..2).map(move |o| (k, o))).filter(|(k, o)| deep || *o == k % 2 || *k == 0 || *k == 3).collect();
    ctx.par(items, move |&(k, o)| {
        ctx.bulk("ill-shaped proofs by a consistent prover", &format!("{} {} public inputs {} old proofs: {}", C::CNAME, pis, o, names[k]), || {
            let one = <S<C> as Field>::ONE;
            let zero = S::<C>::ZERO;
            let mut q = q.clone();
            match k { 4 => q.push(zero), 5 => q.extend(vec![zero; WIRES]), 6 => { if q.pop() != Some(zero) { return Ok(0); } } _ => {} }
            let mut a = Adv::<C>::new(&c, q, old[..o].to_vec());
            let n = a.n();
            let mut go = || -> Result<bool, String> {
                let empty = a.hide(vec![zero; n]);
                a.wires(&rows);
                if k == 2 { a.wires.push(empty.clone()); a.p.c_wires.push(a.commit(&empty)); }
                if k == 3 { a.p.c_wires.pop(); }
                a.grand(&rows, one)?;
                let z = a.p.c_plonk_z;
                if k == 3 { a.p.c_plonk_z = a.commit(&a.wires[WIRES - 1]); }
                let t = a.terms()?;
                ensure!(a.quotient(&t, &Default::default())?, "the quotient leaves a remainder");
                if k == 3 { a.p.c_plonk_t.insert(0, z); }
                if k == 1 || k == 8 { a.t.push(empty.clone()); a.p.c_plonk_t.push(a.commit(&empty)); }
                ensure!(a.pi_quotient()?, "the public input quotient leaves a remainder");
                if k == 7 { a.oldp.push(empty.clone()); }
                a.open()?;
                if k == 7 || k == 8 || k == 10 {
                    // The list that would pair an opening with nothing, cut or shifted so that the numbers fit.
                    for s in vec![&mut a.p.o_local, &mut a.p.o_right, &mut a.p.o_below] {
                        if k == 8 { if s.o_old_proofs.is_empty() { s.o_plonk_t.pop(); } else { s.o_old_proofs.pop(); } }
                        if k == 10 { let x = s.o_plonk_t.pop().unwrap(); s.o_old_proofs.insert(0, x); }
                    }
                }
                if k == 9 { a.wide = true; }
                if k >= named {
                    let (l, s, d) = ((k - named) / 6, (k - named) / 2 % 3, (k - named) % 2);
                    let x = match s { 0 => &mut a.p.o_local, 1 => &mut a.p.o_right, _ => &mut a.p.o_below };
                    let v = match l { 0 => &mut x.o_constants, 1 => &mut x.o_plonk_sigmas, 2 => &mut x.o_wires, 3 => &mut x.o_plonk_t, _ => &mut x.o_old_proofs };
                    if d == 0 { v.push(zero) } else if v.pop().is_none() { return Ok(false); }
                }
                a.ipa()?; Ok(true)
            };
            let r = catch(|| go());
            if matches!(r, Ok(Ok(false))) { return Ok(0); }
            if !matches!(r, Ok(Ok(_))) { ensure!(k != 0, "the honest prover fails: {:?}", r.map(|x| x.err())); }
            for full in &[true, false] {
                let r = catch(|| a.verify(*full)).map_err(|e| format!("{} (full = {}): panic: {}", names[k], full, e))?;
                ensure!(r.is_ok() == (k == 0), "{} (full = {}): {:?}", names[k], full, r);
            }
            Ok(2)
        });
    });
}

fn go<C: Hx>(ctx: &'static Ctx, pis: usize, olds: usize, pad: usize, deep: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let nm = format!("{} {} public inputs {} old proofs", C::CNAME, pis, olds);
    let (a, b) = match (tuple::<C>(pis, olds, pad), tuple::<C>(pis, olds, pad)) { (Ok(a), Ok(mut b)) => {
        let (c, t) = chain::<C>(pis, 1, pad); let (p, q) = proof_of(&c, &t, 99, &a.old, true); b.p = p; b.pis = q; b.old = a.old.clone(); (a, b) } (Err(e), _) | (_, Err(e)) => { ctx.fail("setup/tuple", &e); return; } };
    let (a, b) = (Arc::new(Sh(a)), Arc::new(Sh(b)));
    ctx.case("accepted as it is", &nm, || {
        for t in &[&a, &b] { for full in &[true, false] { verify_proof::<C, C::Inner>(&t.pis, &t.p, &t.old, &t.vk, *full).map_err(|e| format!("{}", e))?; } }
        Ok(())
    });
    single(ctx, &a, nm.clone());
    if deep { shapes(ctx, &a, nm.clone()); }
    special(ctx, &a, &b, nm.clone());
    if deep { bytes(ctx, &a, nm); }
}
fn main() {
    run("C18", "fault_enumeration", "faults", |ctx| {
        go::<Tweedledee>(ctx, 2, 2, 0, true);
        go::<Pallas>(ctx, 0, 0, 70, ctx.thorough);
        if ctx.thorough { go::<Tweedledum>(ctx, 10, 1, 0, true); go::<Vesta>(ctx, 9, 1, 20, true); go::<Tweedledum>(ctx, 0, 1, 0, true); }
        malformed::<Tweedledee>(ctx, 2, ctx.tier(4, 5));
        ill_shaped::<Tweedledee>(ctx, 2, ctx.thorough);
        ill_shaped::<Tweedledum>(ctx, 0, false);
        if ctx.thorough { ill_shaped::<Pallas>(ctx, 10, true); ill_shaped::<Vesta>(ctx, 9, true); }
        if ctx.thorough { malformed::<Pallas>(ctx, 10, 5); malformed::<Tweedledum>(ctx, 0, 5); malformed::<Vesta>(ctx, 1, 5); }
        ctx.note(format!("{} altered tuples were also tried with their transcript made valid again (other L_j)", MENDED.load(std::sync::atomic::Ordering::Relaxed)));
    });
}
