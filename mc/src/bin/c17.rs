//! C17: every satisfying witness of every circuit in the bound yields a proof that verifies, whatever the number of
//! public inputs, rows, gate mix, values, blinding, previous proofs, worker threads and form of the key.
use mc::alpha::*;
use mc::circ::*;
use mc::gad::*;
use mc::gad::G::*;
use mc::*;
use plonky::*;

type S<C> = <C as Curve>::ScalarField;
type T<C> = Target<S<C>>;
fn f1<F: Field>() -> F { <F as Field>::ONE }

fn gens<F: Fx>(i: usize) -> F { generic::<F>(500 + i as u64) }

fn circuits<C: Hx>(ctx: &'static Ctx, pis: Vec<(usize, bool)>, rows: Vec<usize>, mixes: Vec<(Vec<G>, usize, bool)>) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par(mixes, move |(gs, n, blind)| { ctx.bulk("gate mixes", &format!("{} {:?} {} public inputs, blinding {}", C::CNAME, gs, n, blind), || {
        let mut c = Case::<C>::new(*n, &gens);
        for g in gs { c.gadget(*g); }
        c.finish().check(&[], *blind)
    }); });
    ctx.par(pis, move |(n, blind)| { ctx.bulk("numbers of public inputs", &format!("{} {} blinding {}", C::CNAME, n, blind), || {
        let mut c = Case::<C>::new(*n, &gens);
        if *blind { c.gadget(Arith); }
        c.finish().check(&[], *blind)
    }); });
    ctx.par(rows, move |n| { ctx.bulk("numbers of rows", &format!("{} {} rows of free values", C::CNAME, n), || {
        let mut c = Case::<C>::new(n % 3, &gens);
        c.free_rows(*n);
        let b = c.finish();
        b.check(&[], true)
    }); });
}
/// Every combination of extreme values, without blinding (so that committed polynomials can be constant or zero).
fn values<C: Hx>(ctx: &'static Ctx, vals: Vec<i64>, pis: usize, secrets: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let n = pis + secrets;
    let items: Vec<Vec<i64>> = (0..vals.len().pow(n as u32)).map(|mut k| (0..n).map(|_| { let v = vals[k % vals.len()]; k /= vals.len(); v }).collect()).collect();
    ctx.par(items, move |v| { ctx.bulk("extreme values", &format!("{} {} public inputs, values {:?}", C::CNAME, pis, v), || {
        let f = |i: i64| match i { -1 => S::<C>::NEG_ONE, 7 => generic::<S<C>>(7), i => S::<C>::from_canonical_u64(i as u64) };
        // Public inputs are documented to have to fit in both fields: for them -1 stands for the largest value that does.
        let top = S::<C>::of(&(C::BaseField::order().min(S::<C>::order()) - 1u32));
        let mut c = Case::<C>::new(pis, &|i| if v[i] == -1 { top } else { f(v[i]) });
        let mut acc = None;
        for i in 0..n {
            let t = if i < pis { c.pis[i].0 } else { c.secret(f(v[i])).0 };
            acc = Some(match acc { None => t, Some(a) => c.b.mul_add(a, t, a) });
        }
        let b = c.finish();
        b.check(&[], false)?;
        Ok(1)
    }); });
}
/// Rows without constraints full of one value: every wire polynomial constant, Z constant. (-1 is left out: a constant
/// column is opened at its value, and opened values are documented to have to fit in both fields.)
fn uniform<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let mut items = vec![];
    for v in vec![0i64, 1, 2, 7] { for blind in vec![false, true] { for k in vec![0usize, 1, 4, 5] { items.push((v, blind, k)); } } }
    ctx.par(items, move |(v, blind, k)| { ctx.bulk("witnesses of one value", &format!("{} value {} blinding {} rows {}", C::CNAME, v, blind, k), || {
        let f = match *v { -1 => S::<C>::NEG_ONE, 7 => generic::<S<C>>(7), i => S::<C>::from_canonical_u64(i as u64) };
        let mut c = Case::<C>::new(0, &gens);
        for _ in 0..*k { let g = c.b.num_gates(); c.b.add_gate_no_constants(BufferGate::new(g)); }
        let b = c.finish();
        let d = b.c.degree();
        let mut w = PartialWitness::new();
        for g in 0..d { for j in 0..WIRES { w.set_target(Target::Wire(Wire { gate: g, input: j }), f); } }
        // Not through witness generation, which fills the blinding rows with random values.
        let w = Witness::from_partial(&w, d);
        satisfied::<C, C::Inner>(&b.c, &wit(&w, d))?;
        let p = b.c.generate_proof::<C::Inner>(&w, &[], *blind).map_err(|e| format!("prover: {}", e))?;
        accepted(&[], &p, &[], &b.c.to_vk())?;
        Ok(1)
    }); });
}
/// Chains and lists of previous proofs, of this circuit and of smaller ones.
fn olds<C: Hx>(ctx: &'static Ctx, len: usize, max: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("previous proofs", &format!("{} chain of {} proofs with up to {} of them absorbed", C::CNAME, len, max), || {
        let mk = |pis: usize, rows: usize, s: usize| { let mut c = Case::<C>::new(pis, &|i| gens::<S<C>>(i + s * 10)); c.free_rows(rows); if pis > 0 { c.gadget(Arith); } c.finish() };
        let mut have: Vec<OldProof<C>> = vec![];
        let mut cnt = 0;
        for i in 0..len {
            let b = mk(i % 3, i * 2, i); // Growing degree: the proofs absorbed are of this size or smaller.
            let vk = b.c.to_vk();
            let d = b.c.degree();
            let fit: Vec<OldProof<C>> = have.iter().filter(|o| 1 << o.halo_us.len() <= d).cloned().collect();
            let mut lists: Vec<Vec<OldProof<C>>> = vec![vec![]];
            for k in 1..=max.min(fit.len()) { lists.push(fit[fit.len() - k..].to_vec()); }
            if let Some(o) = fit.last() { lists.push(vec![o.clone(); 2]); let mut r = fit.clone(); r.reverse(); r.truncate(max); lists.push(r); }
            let mut last = None;
            for (j, l) in lists.iter().enumerate() {
                let (p, q) = b.prove(l, (i + j) % 2 == 0).map_err(|e| format!("degree {} absorbing {}: {}", d, l.len(), e))?;
                last = Some(accepted(&q, &p, l, &vk).map_err(|e| format!("degree {} absorbing {} of degrees {:?}: {}", d, l.len(), l.iter().map(|o| 1 << o.halo_us.len()).collect::<Vec<i32>>(), e))?);
                cnt += 1;
            }
            have.push(last.unwrap());
        }
        Ok(cnt)
    });
}
/// Worker pools of every size, for building, proving and verifying; and every form of the key.
fn threads<C: Hx>(ctx: &'static Ctx, pools: Vec<usize>, pis: Vec<usize>) where C::BaseField: Fx, C::ScalarField: Fx {
    for n in pis { for k in &pools {
        ctx.bulk("worker threads", &format!("{} {} public inputs, {} threads", C::CNAME, n, k), || {
            let pool = |k: usize| rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap();
            let mk = move || { let mut c = Case::<C>::new(n, &gens); c.gadget(Arith); c.gadget(Rescue); Sh(c.finish()) };
            let b = pool(*k).install(mk);
            let one = pool(1).install(mk);
            let (va, vb) = (b.c.to_vk(), one.c.to_vk());
            ensure!(va.c_constants == vb.c_constants && va.c_s_sigmas == vb.c_s_sigmas, "the key depends on the number of threads");
            ensure!(pool(*k).install(|| wit(&b.witness().unwrap(), b.c.num_gates_without_pis - 3)) == pool(1).install(|| wit(&one.witness().unwrap(), b.c.num_gates_without_pis - 3)), "the witness depends on the number of threads");
            let (p, q) = pool(*k).install(|| b.prove(&[], true))?;
            for v in &[1, *k] { pool(*v).install(|| accepted(&q, &p, &[], &va)).map_err(|e| format!("{} threads: {}", v, e))?; }
            let (p1, q1) = pool(1).install(|| one.prove(&[], false))?;
            pool(*k).install(|| accepted(&q1, &p1, &[], &va))?;
            Ok(4)
        });
    } }
}
fn keys<C: Hx>(ctx: &'static Ctx, pis: Vec<usize>) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par(pis, move |n| { ctx.bulk("forms of the key", &format!("{} {} public inputs", C::CNAME, n), || {
        let mut c = Case::<C>::new(*n, &gens); c.gadget(Arith);
        let b = c.finish();
        let (p0, q) = b.prove(&[], true)?;
        let o = accepted(&q, &p0, &[], &b.c.to_vk())?;
        let mut forms: Vec<(&str, VerificationKey<C>)> = vec![("as built", b.c.to_vk())];
        let mut k = b.c.to_vk(); k.clear_msm_precomputation(); forms.push(("cleared", k.clone()));
        k.clear_msm_precomputation(); forms.push(("cleared twice", k.clone()));
        let rt = |k: &VerificationKey<C>| -> Result<VerificationKey<C>, String> { serde_cbor::from_slice(&serde_cbor::to_vec(k).map_err(|e| format!("{}", e))?).map_err(|e| format!("{}", e)) };
        forms.push(("cleared, round-tripped", rt(&k)?));
        let k = rt(&b.c.to_vk())?; forms.push(("round-tripped", k.clone())); forms.push(("round-tripped twice", rt(&k)?));
        let mut j = k.clone(); j.clear_msm_precomputation(); forms.push(("round-tripped, cleared", j));
        let mut cnt = 0;
        for (old, p, q) in vec![(vec![], p0, q.clone()), { let old = vec![o]; let (p, q) = b.prove(&old, true)?; (old, p, q) }] {
            for (nm, k) in &forms { accepted(&q, &p, &old, k).map_err(|e| format!("key {}: {}", nm, e))?; cnt += 1; }
            // A round-tripped proof and deferred data do as well.
            let p2: Proof<C> = serde_cbor::from_slice(&serde_cbor::to_vec(&p).map_err(|e| format!("{}", e))?).map_err(|e| format!("{}", e))?;
            accepted(&q, &p2, &old, &forms[0].1).map_err(|e| format!("round-tripped proof: {}", e))?;
        }
        Ok(cnt)
    }); });
}
fn main() {
    run("C17", "exploration", "every combination of the listed dimensions", |ctx| {
        let th = ctx.thorough;
        let mut mixes: Vec<(Vec<G>, usize, bool)> = vec![];
        for (i, g) in LARGE.iter().rev().enumerate() { mixes.push((vec![*g], i % 3, i % 2 == 0)); }
        for (i, g) in SMALL.iter().enumerate() { mixes.push((vec![*g], 0, i % 2 == 0)); mixes.push((vec![*g], 3, i % 2 == 1)); }
        for (i, g) in SMALL.iter().enumerate() { for (j, h) in SMALL.iter().enumerate() { if i != j && (th || (i * 3 + j * 5) % 4 == 0) { mixes.push((vec![*g, *h], (i + j) % 4, (i + j) % 2 == 0)); } } }
        mixes.push((SMALL.to_vec(), 2, true)); mixes.push((SMALL.iter().rev().cloned().collect(), 1, false));
        let pis = |v: Vec<usize>| v.into_iter().flat_map(|n| vec![(n, false), (n, true)]).collect::<Vec<_>>();
        circuits::<Tweedledee>(ctx, if th { pis((0..=60).collect()) } else { let mut v: Vec<_> = (0..=19).chain(27..29).map(|n| (n, n % 2 == 0)).collect(); for n in vec![0, 1, 8, 9, 10, 18] { v.push((n, n % 2 == 1)); } v }, if th { (0..=70).chain(120..132).chain(250..258).collect() } else { (0..=16).chain(28..31).chain(59..64).chain(124..126).collect() }, mixes);
        let few = |o: usize| { let mut m = vec![]; for (i, g) in SMALL.iter().enumerate() { if th || i % 3 == o { m.push((vec![*g], (i + o) % 4, (i / 3) % 2 == 0)); } } if th { for g in &LARGE { m.push((vec![*g], o, true)); } } m };
        let np = |v: Vec<usize>| if th { (0..=28).collect() } else { v };
        circuits::<Tweedledum>(ctx, pis(np(vec![0, 1, 10])), if th { (0..=40).collect() } else { vec![0, 2, 11] }, few(0));
        circuits::<Pallas>(ctx, pis(np(vec![0, 3, 9])), if th { (0..=40).collect() } else { vec![1, 5, 13] }, few(1));
        circuits::<Vesta>(ctx, pis(np(vec![0, 2, 18])), if th { (0..=40).collect() } else { vec![0, 4, 12] }, few(2));
        uniform::<Tweedledee>(ctx);
        if th { values::<Pallas>(ctx, vec![0, 1, -1, 7], 2, 2); uniform::<Pallas>(ctx); uniform::<Tweedledum>(ctx); uniform::<Vesta>(ctx); }
        values::<Tweedledee>(ctx, ctx.tier(vec![0, 1, -1], vec![0, 1, -1, 7]), 2, 1);
        values::<Tweedledum>(ctx, vec![0, 1, -1, 7], 0, 2);
        let k = ctx.tier(4, 8);
        ctx.par(vec![0, 1, 2, 3], move |i| match i { 0 => olds::<Tweedledee>(ctx, k, 3), 1 => olds::<Tweedledum>(ctx, k - 1, 2), 2 => olds::<Pallas>(ctx, k - 1, 2), _ => olds::<Vesta>(ctx, k - 1, 2) });
        threads::<Tweedledee>(ctx, if th { (1..=16).collect() } else { vec![2, 3, 8] }, ctx.tier(vec![0, 10], vec![0, 1, 9, 10, 27]));
        keys::<Tweedledee>(ctx, ctx.tier(vec![0, 2, 9], (0..=19).collect()));
        keys::<Pallas>(ctx, ctx.tier(vec![1], (0..=10).collect()));
    });
}
