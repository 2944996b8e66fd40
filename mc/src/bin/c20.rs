//! C20: accumulation histories. Proofs absorb the deferred data of earlier ones; some of that data is bogus (made by a
//! prover whose final point is fitted to the last equation), some is altered between proving and verifying. A model that
//! tracks only which items are genuine predicts the verifier's answer in every state; every state is replayed on the code.
use mc::adv::*;
use mc::alpha::*;
use mc::circ::*;
use mc::*;
use plonky::plonk_util::{halo_g, halo_s, pedersen_hash};
use plonky::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

type S<C> = <C as Curve>::ScalarField;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Prover { Code, True, Claimed, Bogus }

/// Deferred data with what the model knows of it.
#[derive(Clone)]
struct Item<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { d: OldProof<C>, poly: Poly<C>, genuine: bool, name: String }
#[derive(Clone)]
struct Node<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { pis: Vec<S<C>>, p: Proof<C>, old: Vec<Item<C>>, sound: bool, own: bool, poly: Option<Poly<C>>, name: String }
impl<C: Hx> Node<C> where C::BaseField: Fx, C::ScalarField: Fx {
    fn olds(&self) -> Vec<OldProof<C>> { self.old.iter().map(|i| i.d.clone()).collect() }
}

struct Setup<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { c: Circuit<C>, vk: VerificationKey<C>, w: Vec<Vec<S<C>>>, bad: Vec<Vec<S<C>>>, pis: Vec<S<C>>, wit: Witness<S<C>> }
fn setup<C: Hx>(pad: usize, salt: u64) -> Setup<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, t) = chain::<C>(1, 1, pad);
    let wi = c.generate_witness(inputs(&t, salt));
    let pis = c.get_public_inputs(&wi);
    let w = wit(&wi, c.degree());
    let mut bad = w.clone();
    'o: for i in 0..c.degree() { for j in 0..WIRES {
        bad = w.clone(); bad[i][j] = bad[i][j] + <S::<C> as Field>::ONE;
        if gate_violation::<C, C::Inner>(&c, &bad).is_some() { break 'o; }
    } }
    let vk = c.to_vk();
    Setup { c, vk, w, bad, pis, wit: wi }
}

/// One step of a history: a proof absorbing the items of a list. None if that prover has nothing of its own to do here.
fn prove<C: Hx>(s: &'static Setup<C>, l: &[Item<C>], k: Prover) -> Result<Option<Node<C>>, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let clean = l.iter().all(|i| i.genuine);
    let old: Vec<OldProof<C>> = l.iter().map(|i| i.d.clone()).collect();
    let name = format!("{:?}({})", k, l.iter().map(|i| i.name.clone()).collect::<Vec<_>>().join(" "));
    if k == Prover::Code {
        let p = s.c.generate_proof::<C::Inner>(&s.wit, &old, true).map_err(|e| format!("{}: {}", name, e))?;
        return Ok(Some(Node { pis: s.pis.clone(), p, old: l.to_vec(), sound: clean, own: true, poly: None, name }));
    }
    if (k == Prover::True || k == Prover::Claimed) && clean { return Ok(None); }
    let mut a = Adv::new(&s.c, s.pis.clone(), old);
    a.oldp = l.iter().map(|i| i.poly.clone()).collect();
    let w = if k == Prover::Bogus { &s.bad } else { &s.w };
    a.wires(w); a.grand(w, <S::<C> as Field>::ONE)?;
    let t = a.terms()?; a.quotient(&t, &BTreeSet::new())?; a.pi_quotient()?; a.open()?;
    if k != Prover::True {
        let ch = a.challenges()?;
        for (i, o) in l.iter().enumerate() { a.p.o_local.o_old_proofs[i] = o.d.evaluate_g(ch.zeta); }
    }
    let mut poly = None;
    if k == Prover::Bogus {
        // A false statement: the openings are adjusted to the equations, and the final point to the openings.
        let ch = a.challenges()?;
        let (t, q) = expected(&a, &ch);
        let zn = ch.zeta.exp_usize(a.n());
        let cur = a.p.o_local.o_plonk_t.iter().rev().fold(S::<C>::ZERO, |s, y| s * zn + *y);
        a.p.o_local.o_plonk_t[0] = a.p.o_local.o_plonk_t[0] + t - cur; a.p.o_local.o_pi_quotient = q;
        poly = Some(a.ipa_bogus()?);
    } else { a.ipa()?; }
    Ok(Some(Node { pis: s.pis.clone(), p: a.p.clone(), old: l.to_vec(), sound: k == Prover::Bogus, own: k != Prover::Bogus, poly, name }))
}

fn ver<C: Hx>(s: &Setup<C>, n: &Node<C>, old: &[OldProof<C>], full: bool) -> Result<Option<OldProof<C>>, String> where C::BaseField: Fx, C::ScalarField: Fx {
    catch(|| verify_proof::<C, C::Inner>(&n.pis, &n.p, old, &s.vk, full)).map_err(|e| format!("{} panicked: {}", n.name, e)).and_then(|r| Ok(r.map_err(|e| format!("refused: {}", e)))).and_then(|r| r)
}
/// Replays a state on the verifier, in both modes; the deferred data if the model and the code say there is some.
fn replay<C: Hx>(s: &'static Setup<C>, n: &Node<C>) -> Result<Option<Item<C>>, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let (d, f) = (ver(s, n, &n.olds(), false), ver(s, n, &n.olds(), true));
    for r in [&d, &f].iter() { if let Err(e) = r { ensure!(!e.contains("panicked"), "{}", e); } }
    ensure!(d.is_ok() == n.sound, "{}: deferred verification {:?}, the model says {}", n.name, d.as_ref().map(|_| ()), n.sound);
    ensure!(f.is_ok() == (n.sound && n.own), "{}: full verification {:?}, the model says {}", n.name, f.as_ref().map(|_| ()), n.sound && n.own);
    if let Ok(x) = &f { ensure!(x.is_none(), "full verification returned deferred data"); }
    let d = match d { Err(_) => return Ok(None), Ok(x) => x.ok_or("deferred verification returned nothing to check later")? };
    let us = n.p.get_challenges(&n.pis, &n.olds()).map_err(|e| format!("{}", e))?.halo_us;
    ensure!(d.halo_g == n.p.halo_g && d.halo_us == us, "{}: the deferred data is not the proof's", n.name);
    // Genuine exactly if the point commits to the challenges' polynomial, by the definition and by the circuit's own generators.
    let co = d.coeffs();
    ensure!(co.len() == s.c.degree() && co == halo_s(&us), "coefficients of the deferred polynomial");
    let sum = co.iter().zip(&s.c.pedersen_g).fold(ProjectivePoint::<C>::ZERO, |a, (x, g)| a + C::convert(*x) * g.to_projective()).to_affine();
    ensure!((sum == d.halo_g) == n.own && pedersen_hash(&co, &s.c.pedersen_g_msm_precomputation).to_affine() == sum, "{}: the deferred point is {}the commitment", n.name, if n.own { "not " } else { "" });
    for i in 0..4u64 {
        let x = if i == 0 { S::<C>::ZERO } else { generic::<S<C>>(i) };
        let want = co.iter().rev().fold(S::<C>::ZERO, |a, c| a * x + *c);
        ensure!(d.evaluate_g(x) == want && halo_g(x, &us) == want, "evaluation of the deferred polynomial");
    }
    Ok(Some(Item { poly: n.poly.clone().unwrap_or(Poly { c: co, r: S::<C>::ZERO }), d, genuine: n.own, name: n.name.clone() }))
}

/// Every way to present other data to the verifier than the proof absorbed.
fn altered<C: Hx>(n: &Node<C>, others: &[Item<C>]) -> Vec<(String, Vec<OldProof<C>>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let base = n.olds();
    let one = <S::<C> as Field>::ONE;
    let mut v: Vec<(String, Vec<OldProof<C>>)> = vec![];
    for o in others { let mut x = base.clone(); x.push(o.d.clone()); v.push((format!("{} added", o.name), x)); }
    for i in 0..base.len() {
        let mut x = base.clone(); x.remove(i); v.push((format!("{} dropped", i), x));
        let mut x = base.clone(); x.insert(i, base[i].clone()); v.push((format!("{} duplicated", i), x));
        for j in 0..i { let mut x = base.clone(); x.swap(i, j); if base[i].halo_g != base[j].halo_g { v.push((format!("{} and {} exchanged", i, j), x)); } }
        for o in others {
            if o.d.halo_g == base[i].halo_g { continue; }
            let mut x = base.clone(); x[i] = o.d.clone(); v.push((format!("{} replaced by {}", i, o.name), x));
            let mut x = base.clone(); x[i].halo_g = o.d.halo_g; v.push((format!("point of {} replaced", i), x));
            let mut x = base.clone(); x[i].halo_us = o.d.halo_us.clone(); v.push((format!("challenges of {} replaced", i), x));
        }
        let g = base[i].halo_g;
        for (nm, q) in vec![("negated", -g), ("doubled", g.to_projective().double().to_affine()), ("identity", AffinePoint::ZERO), ("generator", C::GENERATOR_AFFINE)] { let mut x = base.clone(); x[i].halo_g = q; v.push((format!("point of {} {}", i, nm), x)); }
        let m = base[i].halo_us.len();
        for k in 0..m {
            let mut x = base.clone(); x[i].halo_us[k] = x[i].halo_us[k] + one; v.push((format!("challenge {} of {} + 1", k, i), x));
            let mut x = base.clone(); x[i].halo_us[k] = -x[i].halo_us[k]; v.push((format!("challenge {} of {} negated", k, i), x));
            for l in 0..k {
                let mut x = base.clone(); x[i].halo_us[k] = -x[i].halo_us[k]; x[i].halo_us[l] = -x[i].halo_us[l]; v.push((format!("challenges {} and {} of {} negated (same polynomial)", l, k, i), x));
                let mut x = base.clone(); x[i].halo_us.swap(k, l); v.push((format!("challenges {} and {} of {} exchanged", l, k, i), x));
            }
        }
        let mut x = base.clone(); x[i].halo_us.remove(0); v.push((format!("first challenge of {} dropped", i), x));
        let mut x = base.clone(); x[i].halo_us.pop(); v.push((format!("last challenge of {} dropped", i), x));
        let mut x = base.clone(); x[i].halo_us.push(one); v.push((format!("challenge 1 appended to {}", i), x));
        let mut x = base.clone(); x[i].halo_us = vec![]; v.push((format!("no challenges in {}", i), x));
    }
    v
}

/// A commitment to any polynomial, absorbed with challenges chosen to fit its value at zeta.
fn fitted<C: Hx>(s: &'static Setup<C>, full: bool) -> Result<u64, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let one = <S::<C> as Field>::ONE;
    let n = s.c.degree();
    let f = Poly::<C> { c: (0..n as u64).map(|i| generic::<S<C>>(900 + i)).collect(), r: S::<C>::ZERO };
    let mut us: Vec<S<C>> = (0..s.c.degree_pow() as u64).map(|i| generic::<S<C>>(950 + i)).collect();
    let mut a = Adv::new(&s.c, s.pis.clone(), vec![]);
    let g = a.commit(&f);
    a.old = vec![OldProof { halo_g: g, halo_us: us.clone() }]; a.oldp = vec![f.clone()];
    a.wires(&s.w); a.grand(&s.w, one)?; let t = a.terms()?; a.quotient(&t, &BTreeSet::new())?; a.pi_quotient()?; a.open()?;
    let zeta = a.challenges()?.zeta;
    let want = a.p.o_local.o_old_proofs[0];
    for k in 0..200u64 {
        us[1] = generic::<S<C>>(2000 + k);
        // g is x alpha + beta / x in its first challenge.
        let at = |x: S<C>| { let mut v = us.clone(); v[0] = x; halo_g(zeta, &v) };
        let (e1, e2) = (at(one), at(one + one));
        let half = one / (one + one);
        let al = (e2 - e1 * half) / (one + one - half);
        let be = e1 - al;
        let four = one + one + one + one;
        let disc = want * want - four * al * be;
        if let Some(r) = disc.square_root() {
            let x = (want + r) / (al + al);
            if x.is_zero() { continue; }
            us[0] = x;
            if halo_g(zeta, &us) != want { return Err("harness: the fitted challenges do not fit".into()); }
            a.old[0].halo_us = us.clone();
            a.ipa()?;
            ensure!(a.verify(full).is_err(), "a commitment to any polynomial passed as deferred data, its challenges fitted to zeta");
            return Ok(1);
        }
    }
    Err("harness: no fitting challenges found".into())
}

fn explore<C: Hx>(ctx: &'static Ctx, depth: usize, width: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let s: &'static Sh<Setup<C>> = Box::leak(Box::new(Sh(setup::<C>(0, 5))));
    let states = Arc::new(Mutex::new(0u64));
    let mut pool: Vec<Item<C>> = vec![];
    for level in 0..=depth {
        // Lists over the pool that use the newest items; each with every prover.
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        let np = pool.len();
        if level > 0 {
            lists = if level == 1 { vec![vec![]] } else { vec![] };
            let newest = |i: usize| level == 1 || pool[i].name.matches('(').count() >= level;
            for i in 0..np { if newest(i) { lists.push(vec![i]); } }
            if width > 1 && (level < depth || ctx.thorough) { for i in 0..np { for j in 0..np { if newest(i) || newest(j) { lists.push(vec![i, j]); } } } }
            if width > 2 && level == 1 { for i in 0..np { for j in 0..np { for k in 0..np { lists.push(vec![i, j, k]); } } } }
        }
        let jobs: Vec<(Vec<Item<C>>, Prover)> = lists.iter().flat_map(|l| [Prover::Code, Prover::Bogus, Prover::Claimed, Prover::True].iter().map(|k| (l.iter().map(|i| pool[*i].clone()).collect(), *k)).collect::<Vec<_>>()).collect();
        let extra = if level == 0 { 2 } else { 0 };
        let out: Arc<Mutex<Vec<(usize, Item<C>)>>> = Arc::new(Mutex::new(vec![]));
        let (o2, st, others) = (out.clone(), states.clone(), pool.iter().take(3).cloned().collect::<Vec<_>>());
        let nj = jobs.len();
        let jobs = Arc::new(jobs);
        ctx.par((0..nj + extra).collect(), move |&ji| {
            let (l, k) = if ji < nj { jobs[ji].clone() } else { (vec![], Prover::Code) };
            let nm = l.iter().map(|i| i.name.clone()).collect::<Vec<_>>().join(" ");
            ctx.bulk(&format!("histories of length {}", level + 1), &format!("{} {:?}({}) #{}", C::CNAME, k, nm, ji), || {
                let n = match prove(s, &l, k)? { None => return Ok(0), Some(n) => n };
                *st.lock().unwrap() += 1; ctx.states(1); ctx.transitions(1); ctx.traces(1);
                let mut cnt = 2;
                if let Some(mut it) = replay(s, &n)? {
                    if ji >= nj { it.name = format!("{}'{}", it.name, ji - nj); }
                    o2.lock().unwrap().push((ji, it));
                    // Altered data, for accepted proofs.
                    let alt = altered(&n, &others);
                    for (i, (what, old)) in alt.iter().enumerate() {
                        if !ctx.thorough && level > 1 && i % 5 != 0 { continue; }
                        if !ctx.thorough && l.len() > 1 && i % 2 != 0 { continue; }
                        for full in if ctx.thorough { vec![false, true] } else { vec![i % 4 == 0] } {
                            let r = ver(s, &n, old, full);
                            ensure!(r.is_err(), "{}: accepted with {}", n.name, what);
                            if let Err(e) = r { ensure!(!e.contains("panicked"), "{} ({})", e, what); }
                            cnt += 1; ctx.transitions(1);
                        }
                    }
                }
                Ok(cnt)
            });
        });
        let mut got = out.lock().unwrap().clone();
        got.sort_by_key(|x| x.0);
        // The next level absorbs a genuine and a bogus item of this one (all of them at the first level), and earlier ones.
        let new: Vec<Item<C>> = if level == 0 { got.into_iter().map(|x| x.1).take(ctx.tier(3, 4)).collect() } else {
            let mut v = vec![]; let (mut g, mut b) = (0, 0);
            for (_, i) in got.into_iter().rev() { if i.genuine && g < ctx.tier(1, 2) { g += 1; v.push(i); } else if !i.genuine && b < ctx.tier(1, 2) { b += 1; v.push(i); } }
            v
        };
        pool.truncate(ctx.tier(2, 3)); pool.extend(new);
    }
    ctx.note(format!("{}: {} states", C::CNAME, states.lock().unwrap()));
}

fn main() {
    run("C20", "model_checking", "histories", |ctx| {
        for full in &[false, true] {
            ctx.bulk("challenges fitted to zeta", &format!("Tweedledee full={}", full), || fitted::<Tweedledee>(Box::leak(Box::new(setup(0, 5))), *full));
        }
        explore::<Tweedledee>(ctx, ctx.tier(2, 3), 2);
        // Data of a smaller circuit absorbed by a larger one.
        ctx.bulk("different sizes", "Tweedledum", || {
            let (a, b): (&'static Setup<Tweedledum>, &'static Setup<Tweedledum>) = (Box::leak(Box::new(setup(0, 5))), Box::leak(Box::new(setup(20, 6))));
            ensure!(a.c.degree() < b.c.degree(), "sizes");
            let i = replay(a, &prove(a, &[], Prover::Code)?.unwrap())?.unwrap();
            let n = prove(b, &[i.clone()], Prover::Code)?.unwrap();
            let j = replay(b, &n)?.unwrap();
            replay(b, &prove(b, &[i, j], Prover::Code)?.unwrap())?;
            Ok(3)
        });
        if ctx.thorough { explore::<Pallas>(ctx, 2, 3); explore::<Tweedledum>(ctx, 2, 2); explore::<Vesta>(ctx, 2, 2); }
    });
}
