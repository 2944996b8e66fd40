//! C19: no accepted proof for a violated constraint. An algebraic prover (mc::adv) tries every violating assignment in
//! the bound, every false opening and every late choice; and every message is shown to move every later challenge.
use mc::adv::*;
use mc::alpha::*;
use mc::circ::*;
use mc::*;
use plonky::plonk_util::{halo_g, reduce_with_powers};
use plonky::*;
use std::collections::BTreeSet;
use std::sync::Arc;

type S<C> = <C as Curve>::ScalarField;
fn f1<F: Field>() -> F { <F as Field>::ONE }

/// Two public inputs, gates of several kinds and rows without gate constraints whose routed wires are copied together.
fn mixed<C: HaloCurve>(pis: usize) -> (Circuit<C>, Vec<Target<C::ScalarField>>) {
    let mut b = CircuitBuilder::<C>::new(128);
    let p = b.add_public_inputs(pis);
    let s = b.add_virtual_targets(2);
    for k in 0..2 {
        let g = b.num_gates();
        b.add_gate_no_constants(BufferGate::new(g));
        for j in 0..ROUTED { b.copy(s[(j + k) % 2], Target::Wire(Wire { gate: g, input: j })); }
    }
    let m = b.mul(s[0], s[1]);
    if pis > 0 { let q = b.add(p[0], m); b.square(q); }
    let k = b.constant_wire(C::ScalarField::from_canonical_u64(7));
    b.mul_add(m, k, s[0]);
    (b.build(), p.into_iter().chain(s).collect())
}
fn honest<C: Hx>(c: &Circuit<C>, t: &[Target<S<C>>]) -> (Vec<Vec<S<C>>>, Vec<S<C>>) where C::BaseField: Fx, C::ScalarField: Fx {
    let w = c.generate_witness(inputs(t, 3));
    (wit(&w, c.degree()), c.get_public_inputs(&w))
}
fn bad<C: Hx>(c: &Circuit<C>, w: &[Vec<S<C>>]) -> bool where C::BaseField: Fx, C::ScalarField: Fx { gate_violation::<C, C::Inner>(c, w).is_some() || copy_violation(c, w).is_some() }

/// A transcript-derived value can fail to exist (a round challenge must be a square); then another alteration is tried.
fn chs<C: Hx>(a: &Adv<C>) -> Option<Vec<(&'static str, S<C>)>> where C::BaseField: Fx, C::ScalarField: Fx {
    let c = a.challenges().ok()?;
    let mut v = vec![("beta", c.beta), ("gamma", c.gamma), ("alpha", c.alpha), ("zeta", c.zeta), ("v", c.v), ("u", c.u), ("u_scaling", c.u_scaling)];
    let n = ["u_1", "u_2", "u_3", "u_4", "u_5", "u_6", "u_7", "u_8"];
    for (i, x) in c.halo_us.iter().enumerate() { v.push((n[i], *x)); }
    v.push(("schnorr", c.schnorr_challenge));
    Some(v)
}
fn rank(n: &str) -> usize { match n { "beta" | "gamma" => 1, "alpha" => 2, "zeta" => 3, "v" | "u" | "u_scaling" => 4, "schnorr" => 99, s => 4 + s[2..].parse::<usize>().unwrap() } }

fn all_openings<F: Field>(o: &mut OpeningSet<F>) -> Vec<(String, &mut F)> {
    let mut v: Vec<(String, &mut F)> = vec![];
    for (i, x) in o.o_constants.iter_mut().enumerate() { v.push((format!("constant {}", i), x)); }
    for (i, x) in o.o_plonk_sigmas.iter_mut().enumerate() { v.push((format!("sigma {}", i), x)); }
    for (i, x) in o.o_wires.iter_mut().enumerate() { v.push((format!("wire {}", i), x)); }
    v.push(("Z".into(), &mut o.o_plonk_z));
    for (i, x) in o.o_plonk_t.iter_mut().enumerate() { v.push((format!("t {}", i), x)); }
    for (i, x) in o.o_old_proofs.iter_mut().enumerate() { v.push((format!("old proof {}", i), x)); }
    v.push(("public input quotient".into(), &mut o.o_pi_quotient));
    v
}

/// Every message and every alteration of it: all challenges drawn afterwards change.
fn binding<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = mixed::<C>(3);
    let (c, t) = (Arc::new(Sh(c)), Arc::new(t));
    let old: Vec<OldProof<C>> = {
        (0..2).map(|i| { let (p, pis) = proof_of(&c, &t, 50 + i, &[], true);
            verify_proof::<C, C::Inner>(&pis, &p, &[], &c.to_vk(), false).expect("deferred verification").expect("deferred data") }).collect()
    };
    let (p, pis) = proof_of(&c, &t, 60, &old, true);
    let rounds = p.halo_l.len();
    // (rank of the message, name, number of points, field elements of it, alteration)
    let slots: Vec<(usize, String)> = {
        let mut v = vec![];
        for i in 0..pis.len() { v.push((0, format!("pi {}", i))); }
        for i in 0..WIRES { v.push((0, format!("c_wires {}", i))); }
        v.push((1, "c_z 0".into()));
        for i in 0..p.c_plonk_t.len() { v.push((2, format!("c_t {}", i))); }
        v.push((2, "c_pq 0".into()));
        for i in 0..2 { v.push((2, format!("old_g {}", i))); for k in 0..rounds { v.push((2, format!("old_u {}", i * rounds + k))); } }
        for s in 0..3 { for k in 0..p.o_local.to_vec().len() { v.push((3, format!("open {}", s * 1000 + k))); } }
        for i in 0..rounds { v.push((4 + i, format!("l {}", i))); v.push((4 + i, format!("r {}", i))); }
        v.push((98, "schnorr_r 0".into()));
        v
    };
    let n = slots.len();
    ctx.note(format!("binding {}: {} message components", C::CNAME, n));
    let (p, pis, old, slots) = (Arc::new(p), Arc::new(pis), Arc::new(old), Arc::new(slots));
    let zeta_c = C::ZETA;
    ctx.par((0..n).collect(), move |&si| {
        let (rk, name) = &slots[si];
        let mut base = Adv::new(&c, pis.to_vec(), old.to_vec()); base.p = (*p).clone();
        ctx.bulk("every message moves every later challenge", &format!("{} {}", C::CNAME, name), || {
            let want = chs(&base).ok_or("challenges of an honest proof")?;
            for i in 0..want.len() { for j in 0..i { ensure!(want[i].1 != want[j].1 && want[i].1 != -want[j].1, "{} and {} are the same up to sign", want[i].0, want[j].0); } }
            for x in &want { ensure!(!x.1.is_zero() && !x.1.is_one(), "{} is trivial", x.0); }
            let (kind, idx) = { let mut s = name.split(' '); (s.next().unwrap(), s.next().unwrap().parse::<usize>().unwrap()) };
            let mut cnt = 0;
            // Alteration `mode`, try `tr`, of the message; false if there is no such alteration.
            let alter = |a: &mut Adv<C>, mode: usize, tr: u64| -> bool {
                    // Elements: shifted; shifted with the opposite shift of the next one of its list; exchanged with the next one.
                    let el = |v: &mut Vec<&mut S<C>>, k: usize| -> bool {
                        let d = S::<C>::from_canonical_u64(1 + tr);
                        match mode { 0 => { *v[k] = *v[k] + d; true }
                            1 => { if k + 1 >= v.len() { return false; } *v[k] = *v[k] + d; *v[k + 1] = *v[k + 1] - d; true }
                            _ => { if k + 1 >= v.len() || *v[k] == *v[k + 1] || tr > 0 { return false; } let x = *v[k]; *v[k] = *v[k + 1]; *v[k + 1] = x; true } }
                    };
                    // Points: another one; the same x; the same y.
                    let pt = |q: &mut AffinePoint<C>| -> bool {
                        if q.zero { return false; }
                        match mode { 0 => { *q = (q.to_projective() + C::convert(S::<C>::from_canonical_u64(1 + tr)) * C::GENERATOR_PROJECTIVE).to_affine(); true }
                            1 => { if tr > 0 { return false; } *q = -*q; true }
                            _ => { if tr > 1 { return false; } for _ in 0..=tr { q.x = q.x * zeta_c; } true } }
                    };
                    match kind {
                        "pi" => el(&mut a.pis.iter_mut().collect(), idx),
                        "c_wires" => pt(&mut a.p.c_wires[idx]), "c_z" => pt(&mut a.p.c_plonk_z), "c_t" => pt(&mut a.p.c_plonk_t[idx]), "c_pq" => pt(&mut a.p.c_pis_quotient),
                        "old_g" => pt(&mut a.old[idx].halo_g),
                        "old_u" => el(&mut a.old.iter_mut().flat_map(|o| o.halo_us.iter_mut()).collect(), idx),
                        "open" => { let (s, k) = (idx / 1000, idx % 1000); let mut sets = [&mut a.p.o_local, &mut a.p.o_right, &mut a.p.o_below];
                            let mut all: Vec<&mut S<C>> = sets.iter_mut().flat_map(|o| all_openings(o).into_iter().map(|x| x.1)).collect();
                            let per = all.len() / 3; el(&mut all, s * per + k) }
                        "l" => pt(&mut a.p.halo_l[idx]), "r" => pt(&mut a.p.halo_r[idx]),
                        _ => pt(&mut a.p.schnorr_proof.r),
                    }
            };
            // The number of rounds the transcript is cut to: none for everything up to the openings; then up to the round wanted.
            let mut todo: Vec<(usize, usize)> = vec![];
            if *rk <= 3 || kind == "schnorr_r" { todo.extend((0..3).map(|m| (0, m))); if *rk <= 3 { todo.push((1, 0)); } }
            else { let j = rk - 4; todo.extend((0..3).map(|m| (j + 1, m))); if j + 2 <= rounds { todo.push((j + 2, 0)); } }
            for (cut, mode) in todo {
                let mut b0 = base.clone(); b0.p.halo_l.truncate(cut); b0.p.halo_r.truncate(cut);
                let want = chs(&b0).ok_or("challenges of a cut honest proof")?;
                for tr in 0..12u64 {
                    let mut a = b0.clone();
                    if !alter(&mut a, mode, tr) { break; }
                    if let Some(got) = chs(&a) {
                        for ((nm, w), (_, g)) in want.iter().zip(&got) { if rank(nm) > *rk { ensure!(g != w, "{} does not depend on {} (alteration {})", nm, name, mode); cnt += 1; } }
                        break;
                    }
                }
            }
            ensure!(cnt > 0, "nothing compared");
            Ok(cnt)
        });
    });
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Start { One, Zero }

/// All ways the algebraic prover goes about one violating assignment.
fn attempts<C: Hx>(c: &Circuit<C>, pis: &[S<C>], w: &[Vec<S<C>>], deep: bool) -> Result<u64, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut cnt = 0;
    let mut go = |what: &str, a: &Adv<C>| -> R { cnt += 1; ensure!(a.verify(true).is_err(), "accepted: {}", what); Ok(()) };
    for st in &[Start::One, Start::Zero] {
        if *st == Start::Zero && !deep { continue; }
        let mut a = Adv::new(c, pis.to_vec(), vec![]);
        a.wires(w);
        a.grand(w, if *st == Start::One { f1() } else { S::<C>::ZERO })?;
        let terms = a.terms()?;
        let violated: BTreeSet<usize> = terms.iter().enumerate().filter(|(_, t)| !a.div_h(t).1).map(|(i, _)| i).collect();
        let mut omits = vec![BTreeSet::new()];
        if deep && !violated.is_empty() { omits.push(violated); }
        for om in omits {
            let mut b = Adv::new(c, pis.to_vec(), vec![]);
            b.p = a.p.clone(); b.wires = a.wires.clone(); b.z = a.z.clone();
            b.quotient(&terms, &om)?;
            b.pi_quotient()?;
            b.open()?; b.ipa()?;
            go(&format!("start {:?}, omitted terms {:?}", st, om), &b)?;
            if deep && *st == Start::One && om.is_empty() {
                // Openings of t and of the public input quotient stated as the equations want them.
                let ch = b.challenges()?;
                let (t, q) = expected(&b, &ch);
                let n = S::<C>::from_canonical_usize(b.n());
                let zn = ch.zeta.exp(n);
                let cur = b.p.o_local.o_plonk_t.iter().rev().fold(S::<C>::ZERO, |s, y| s * zn + *y);
                b.p.o_local.o_plonk_t[0] = b.p.o_local.o_plonk_t[0] + t - cur;
                b.p.o_local.o_pi_quotient = q;
                b.p.halo_l.clear(); b.p.halo_r.clear();
                b.ipa()?;
                go("openings adjusted to the equations", &b)?;
            }
        }
    }
    Ok(cnt)
}

fn violating<C: Hx>(ctx: &'static Ctx, pis: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = mixed::<C>(pis);
    let (w, pi) = honest(&c, &t);
    let n = c.degree();
    ctx.case("control: the algebraic prover's honest proofs are accepted", &format!("{} {} public inputs", C::CNAME, pis), || {
        let mut a = Adv::new(&c, pi.clone(), vec![]);
        ensure!(a.run(&w, f1(), &BTreeSet::new())?, "a quotient of a satisfying assignment is not exact");
        a.verify(true)
    });
    let mut todo: Vec<(String, Vec<Vec<S<C>>>, Vec<S<C>>)> = vec![];
    let mut harmless = 0;
    let mut put = |nm: String, x: Vec<Vec<S<C>>>| { if bad(&c, &x) { todo.push((nm, x, pi.clone())) } else { harmless += 1 } };
    // Every cell on its own; every class of copied wires as a whole; every exchange of two routed cells with different values.
    for i in 0..n { for j in 0..WIRES {
        let mut x = w.clone(); x[i][j] = x[i][j] + f1(); put(format!("cell {} {} + 1", i, j), x);
        if ctx.thorough { let mut x = w.clone(); x[i][j] = S::<C>::ZERO; if x != w { put(format!("cell {} {} := 0", i, j), x); } }
    } }
    let mut seen = BTreeSet::new();
    for i in 0..n { for j in 0..ROUTED {
        let p: Vec<(usize, usize)> = c.routing_target_partitions.get_partition(Target::Wire(Wire { gate: i, input: j })).iter().filter_map(|t| if let Target::Wire(x) = t { Some((x.gate, x.input)) } else { None }).collect();
        if p.len() > 1 && seen.insert(p.iter().min().cloned()) {
            let mut x = w.clone(); for (a, b) in &p { x[*a][*b] = x[*a][*b] + f1(); } put(format!("class of {} {} + 1", i, j), x);
        }
    } }
    let cells: Vec<(usize, usize)> = (0..2).flat_map(|i| (0..ROUTED).map(move |j| (i, j))).collect();
    for (k, a) in cells.iter().enumerate() { for b in &cells[..k] {
        if w[a.0][a.1] != w[b.0][b.1] && (ctx.thorough || k % 3 == 0) { let mut x = w.clone(); let v = x[a.0][a.1]; x[a.0][a.1] = x[b.0][b.1]; x[b.0][b.1] = v; put(format!("cells {:?} and {:?} exchanged", b, a), x); }
    } }
    // Claimed public inputs that are not those of the assignment (which is otherwise satisfying).
    for i in 0..pis { let mut q = pi.clone(); q[i] = q[i] + f1(); todo.push((format!("claimed public input {} + 1", i), w.clone(), q)); }
    if pis > 1 { for i in 1..pis { let mut q = pi.clone(); q.swap(0, i); todo.push((format!("claimed public inputs 0 and {} exchanged", i), w.clone(), q)); } }
    ctx.note(format!("{} with {} public inputs: degree {}, {} violating assignments, {} alterations that violate nothing", C::CNAME, pis, n, todo.len(), harmless));
    let (c, todo) = (Arc::new(Sh(c)), Arc::new(todo));
    let m = todo.len();
    ctx.par((0..m).collect(), move |&i| {
        let (nm, x, q) = &todo[i];
        ctx.bulk("violating assignment", &format!("{} {} public inputs: {}", C::CNAME, pis, nm), || attempts(&c, q, x, ctx.thorough || i % 10 == 0 || nm.starts_with("cl")));
    });
}

/// Every opening misstated, with the openings of t and of the public input quotient adjusted so that the equations hold.
fn false_openings<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = mixed::<C>(3);
    let (p0, pi0) = proof_of(&c, &t, 70, &[], true);
    let old = vec![verify_proof::<C, C::Inner>(&pi0, &p0, &[], &c.to_vk(), false).expect("deferred").expect("deferred data")];
    let (w, pi) = honest(&c, &t);
    let c: &'static Circuit<C> = Box::leak(Box::new(c));
    let base = {
        let mut a = Adv::new(c, pi, old);
        let mut go = || -> R { a.wires(&w); a.grand(&w, f1())?; let t = a.terms()?; a.quotient(&t, &BTreeSet::new())?; a.pi_quotient()?; a.open() };
        if let Err(e) = go() { ctx.fail("misstated opening/setup", &e); return; }
        Arc::new(Sh(a))
    };
    let per = 6 + 6 + WIRES + 1 + 7 + 1 + 1;
    let jobs: Vec<usize> = (0..3 * per + 1).collect();
    ctx.par(jobs, move |&k| {
        ctx.bulk("misstated opening", &format!("{} {}", C::CNAME, k), || {
            let mut a: Adv<C> = (**base).clone();
            let names: Vec<String> = { let mut s = a.p.o_local.clone(); all_openings(&mut s).into_iter().map(|x| x.0).collect() };
            let m = names.len();
            let (set, pos) = (k / per, k % per);
            if k < 3 * per {
                if pos >= m { return Ok(0); }
                let o = match set { 0 => &mut a.p.o_local, 1 => &mut a.p.o_right, _ => &mut a.p.o_below };
                let mut v = all_openings(o); *v[pos].1 = *v[pos].1 + f1();
            }
            let ch = a.challenges()?;
            let (t, q) = expected(&a, &ch);
            let zn = ch.zeta.exp_usize(a.n());
            let cur = a.p.o_local.o_plonk_t.iter().rev().fold(S::<C>::ZERO, |s, y| s * zn + *y);
            // When an opening of t itself was misstated, another one makes up for it.
            let j = if names.get(pos).map(|s| s == "t 0").unwrap_or(false) && set == 0 { 1 } else { 0 };
            let f = if j == 1 { f1::<S<C>>() / zn } else { f1() };
            if k == 3 * per { ensure!(t == cur && q == a.p.o_local.o_pi_quotient, "control: the equations do not hold for true openings"); a.ipa()?; a.verify(true)?; return Ok(1); }
            a.p.o_local.o_plonk_t[j] = a.p.o_local.o_plonk_t[j] + (t - cur) * f;
            if !(set == 0 && names[pos] == "public input quotient") { a.p.o_local.o_pi_quotient = q; }
            a.ipa()?;
            ensure!(a.verify(true).is_err(), "accepted with a false opening of {} in set {}", names[pos], set);
            Ok(1)
        });
    });
}

/// Messages chosen after challenges that must depend on them.
fn late<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = mixed::<C>(3);
    let (w, pi) = honest(&c, &t);
    let (c, w, pi) = (Arc::new(Sh(c)), Arc::new(w), Arc::new(pi));
    ctx.par((0..9usize).collect(), move |&k| {
        let name = ["control", "public inputs after alpha", "openings after u and v", "Schnorr commitment after its challenge", "cross term 1 after its challenge", "cross term 2 after its challenge", "last cross term after its challenge", "halo_g after everything", "quotient commitments after zeta"][k];
        ctx.bulk("late choice", &format!("{} {}", C::CNAME, name), || {
            let mut a = Adv::new(&c, pi.to_vec(), vec![]);
            let one = f1::<S<C>>();
            // Everything is for a violating assignment except in the control.
            let mut x = w.to_vec();
            if k >= 2 { x[0][0] = x[0][0] + one; ensure!(bad(&c, &x), "not violating"); }
            a.wires(&x); a.grand(&x, one)?; let t = a.terms()?; a.quotient(&t, &BTreeSet::new())?;
            if k == 1 { let al = a.challenges()?.alpha; a.pis[0] = a.pis[0] + al; a.pis[1] = a.pis[1] - one; let p2 = a.pis.clone(); a.pis = pi.to_vec(); a.pi_quotient()?; a.pis = p2; } else { a.pi_quotient()?; }
            a.open()?;
            let adjust = |a: &mut Adv<C>| -> R {
                let ch = a.challenges()?; let (t, q) = expected(a, &ch); let zn = ch.zeta.exp_usize(a.n());
                let cur = a.p.o_local.o_plonk_t.iter().rev().fold(S::<C>::ZERO, |s, y| s * zn + *y);
                a.p.o_local.o_plonk_t[0] = a.p.o_local.o_plonk_t[0] + t - cur; a.p.o_local.o_pi_quotient = q; Ok(())
            };
            if k <= 1 { a.ipa()?; return if k == 0 { a.verify(true)?; Ok(1) } else { ensure!(a.verify(true).is_err(), "public inputs chosen after alpha were accepted"); Ok(1) }; }
            if k == 8 {
                // Quotient replaced after zeta by a constant that makes the equation hold.
                let ch = a.challenges()?; a.p.o_local.o_pi_quotient = expected(&a, &ch).1;
                let (t, _) = expected(&a, &ch);
                let mut q = vec![S::<C>::ZERO; 7 * a.n()]; q[0] = t;
                a.set_t(&q);
                let pts = a.points(ch.zeta);
                a.p.o_local.o_plonk_t = a.set(pts[0]).o_plonk_t; a.p.o_right.o_plonk_t = a.set(pts[1]).o_plonk_t; a.p.o_below.o_plonk_t = a.set(pts[2]).o_plonk_t;
                a.ipa()?; ensure!(a.verify(true).is_err(), "a quotient chosen after zeta was accepted"); return Ok(1);
            }
            let truth = a.p.clone();
            adjust(&mut a)?;
            if k == 2 {
                // The error of o_local is cancelled by an opening at another point that no equation reads.
                let ch = a.challenges()?;
                let sc = a.scalars(&ch, a.p.o_local.to_vec().len());
                let d: S<C> = a.p.o_local.to_vec().iter().zip(truth.o_local.to_vec()).zip(&sc).fold(S::<C>::ZERO, |s, ((x, y), u)| s + (*x - y) * *u);
                let nz = a.p.o_local.to_vec().len();
                a.p.o_below.o_pi_quotient = a.p.o_below.o_pi_quotient - d / (sc[nz - 1] * ch.v * ch.v);
                a.ipa()?;
                ensure!(a.verify(true).is_err(), "openings chosen after u and v were accepted"); return Ok(1);
            }
            a.ipa()?;
            let ch = a.challenges()?;
            let h = a.c.pedersen_h.to_projective();
            let (z1, z2) = (a.p.schnorr_proof.z1, a.p.schnorr_proof.z2);
            let cv = |s: S<C>| C::convert(s);
            // The final equation: c Q + R = z1 (G + b U) + z2 H.
            let rhs = |a: &Adv<C>, ch: &ProofChallenge<C>| cv(z1) * (a.p.halo_g.to_projective() + cv(a.b(ch)) * a.u_prime(ch)) + cv(z2) * h;
            match k {
                3 => { a.p.schnorr_proof.r = (rhs(&a, &ch) + -(cv(ch.schnorr_challenge) * a.q(&ch))).to_affine(); }
                4 | 5 | 6 => {
                    let j = match k { 4 => 0, 5 => 1, _ => a.p.halo_l.len() - 1 };
                    let miss = rhs(&a, &ch) + -(cv(ch.schnorr_challenge) * a.q(&ch)) + -a.p.schnorr_proof.r.to_projective();
                    let f = one / (ch.schnorr_challenge * ch.halo_us[j] * ch.halo_us[j]);
                    a.p.halo_l[j] = (a.p.halo_l[j].to_projective() + cv(f) * miss).to_affine();
                }
                _ => {
                    let g = cv(one / z1) * (cv(ch.schnorr_challenge) * a.q(&ch) + a.p.schnorr_proof.r.to_projective() + -(cv(z2) * h)) + -(cv(a.b(&ch)) * a.u_prime(&ch));
                    a.p.halo_g = g.to_affine();
                }
            }
            ensure!(a.verify(true).is_err(), "a message chosen after its challenge was accepted");
            Ok(1)
        });
    });
}

/// The reductions used in the equations.
fn reductions<F: Fx>(ctx: &'static Ctx) {
    ctx.bulk("reductions with powers", F::NAME, || {
        let al = [F::ZERO, f1::<F>(), F::NEG_ONE, generic::<F>(5), F::TWO];
        let mut cnt = 0;
        let mut cur: Vec<Vec<F>> = vec![vec![]];
        for _ in 0..=4 {
            for l in &cur { for x in &al {
                let want = l.iter().rev().fold(F::ZERO, |s, y| s * *x + *y);
                ensure!(reduce_with_powers(l, *x) == want, "reduce_with_powers({:?}, {:?})", l, x); cnt += 1;
            } }
            cur = cur.iter().flat_map(|l| al.iter().map(move |a| { let mut v = l.clone(); v.push(*a); v })).collect();
        }
        Ok(cnt)
    });
}

fn main() {
    run("C19", "fault_enumeration", "forge", |ctx| {
        reductions::<TweedledeeBase>(ctx); reductions::<PallasBase>(ctx);
        late::<Tweedledee>(ctx);

        false_openings::<Tweedledum>(ctx);
        violating::<Tweedledee>(ctx, 3);
        binding::<Pallas>(ctx);
        if ctx.thorough { violating::<Tweedledum>(ctx, 0); violating::<Pallas>(ctx, 10); violating::<Vesta>(ctx, 3); binding::<Tweedledee>(ctx); binding::<Tweedledum>(ctx); binding::<Vesta>(ctx); late::<Vesta>(ctx); late::<Tweedledum>(ctx); late::<Pallas>(ctx); false_openings::<Tweedledee>(ctx); false_openings::<Pallas>(ctx); false_openings::<Vesta>(ctx); }
        let _ = halo_g::<TweedledeeBase>;
    });
}
