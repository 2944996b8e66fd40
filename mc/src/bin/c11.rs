//! C11: copy requests, partitions, the permutation, its polynomials and the grand product.
use mc::alpha::*;
use mc::circ::*;
use mc::pts::*;
use mc::refm::*;
use mc::*;
use plonky::plonk_util::permutation_polynomial;
use plonky::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type F = VestaBase;
fn wire(gate: usize, input: usize) -> Wire { Wire { gate, input } }
/// Classes of elements 0..n under a list of requests, as the smallest member of each element's class.
fn classes(n: usize, reqs: &[(usize, usize)]) -> Vec<usize> {
    let mut c: Vec<usize> = (0..n).collect();
    loop {
        let mut ch = false;
        for (a, d) in reqs { let m = c[*a].min(c[*d]); for x in &[*a, *d] { if c[*x] != m { c[*x] = m; ch = true; } } }
        if !ch { return c; }
    }
}
/// The cycles of sigma are exactly the classes (restricted to routed wires).
fn check_sigma(sigma: &[usize], gates: usize, class: &dyn Fn(Wire) -> usize) -> R {
    ensure!(sigma.len() == ROUTED * gates, "sigma has {} entries", sigma.len());
    let w = |k: usize| wire(k % gates, k / gates);
    let mut members: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for k in 0..sigma.len() { members.entry(class(w(k))).or_default().insert(k); }
    for (_, m) in &members {
        let s = *m.iter().next().unwrap();
        let (mut k, mut seen) = (s, BTreeSet::new());
        while seen.insert(k) {
            ensure!(sigma[k] < sigma.len(), "sigma maps {:?} to {}", w(k), sigma[k]);
            k = sigma[k];
        }
        ensure!(k == s && &seen == m, "the cycle of {:?} is {:?}, its class is {:?}", w(s), seen.iter().map(|k| w(*k)).collect::<Vec<_>>(), m.iter().map(|k| w(*k)).collect::<Vec<_>>());
    }
    Ok(())
}

/// Breadth-first over merge sequences; elements are wires of three gates (two inputs of one gate included) and virtual targets.
fn merges(ctx: &'static Ctx, depth: usize) {
    const G: usize = 3;
    let els: Vec<Target<F>> = vec![Target::Wire(wire(0, 0)), Target::Wire(wire(0, 5)), Target::Wire(wire(1, 0)), Target::Wire(wire(2, 3)), Target::VirtualTarget(VirtualTarget { index: 0 }), Target::VirtualTarget(VirtualTarget { index: 1 })];
    let n = els.len();
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |c| (a, c))).collect();
    let mut base = TargetPartitions::<F>::new();
    for i in 0..2 { base.add_partition(Target::VirtualTarget(VirtualTarget { index: i })); }
    for g in 0..G { for i in 0..WIRES { base.add_partition(Target::Wire(wire(g, i))); } }
    struct St { els: Vec<Target<F>>, pairs: Vec<(usize, usize)>, states: HashSet<Vec<usize>>, trans: u64, forms: HashSet<Vec<Vec<String>>> }
    fn check(s: &mut St, p: &TargetPartitions<F>, reqs: &[(usize, usize)]) -> R {
        let n = s.els.len();
        let c = classes(n, reqs);
        for (i, e) in s.els.iter().enumerate() {
            let got: HashSet<Target<F>> = p.get_partition(*e).iter().cloned().collect();
            ensure!(got.len() == p.get_partition(*e).len(), "after {:?} the partition of {:?} lists a member twice", reqs, e);
            let want: HashSet<Target<F>> = (0..n).filter(|j| c[*j] == c[i]).map(|j| s.els[j]).collect();
            ensure!(got == want, "after {:?} the partition of {:?} is {:?}, expected {:?}", reqs, e, got, want);
        }
        let idx: HashMap<Wire, usize> = s.els.iter().enumerate().filter_map(|(i, e)| if let Target::Wire(w) = e { Some((*w, c[i])) } else { None }).collect();
        check_sigma(&p.to_wire_partitions().to_sigma(), G, &|w| idx.get(&w).cloned().unwrap_or(1000 + w.gate * 100 + w.input)).map_err(|e| format!("after {:?}: {}", reqs, e))?;
        s.states.insert(c);
        let f: Vec<Vec<String>> = s.els.iter().map(|e| p.get_partition(*e).iter().map(|t| format!("{:?}", t)).collect()).collect();
        s.forms.insert(f);
        Ok(())
    }
    fn go(s: &mut St, p: &TargetPartitions<F>, reqs: &mut Vec<(usize, usize)>, depth: usize) -> R {
        check(s, p, reqs)?;
        if depth == 0 { return Ok(()); }
        for (a, c) in s.pairs.clone() {
            let mut q = p.clone();
            q.merge(s.els[a], s.els[c]);
            s.trans += 1;
            reqs.push((a, c)); go(s, &q, reqs, depth - 1)?; reqs.pop();
        }
        Ok(())
    }
    let (e2, p2, b2) = (els.clone(), pairs.clone(), base);
    ctx.par(pairs, move |&(a, c)| {
        ctx.bulk("merges", &format!("every sequence of {} merges of 6 targets starting with {:?}", depth, (a, c)), || {
            let mut s = St { els: e2.clone(), pairs: p2.clone(), states: HashSet::new(), trans: 1, forms: HashSet::new() };
            let mut q = b2.clone();
            q.merge(e2[a], e2[c]);
            go(&mut s, &q, &mut vec![(a, c)], depth - 1)?;
            ctx.states(s.forms.len() as u64); ctx.transitions(s.trans); ctx.traces(s.trans);
            Ok(s.trans)
        });
    });
}

/// Column labels k_i as the verifier uses them, recovered from a circuit without copies; pairwise different cosets.
fn shifts<C: Hx>(c: &Circuit<C>) -> Vec<B> where C::BaseField: Fx, C::ScalarField: Fx {
    // The last gates are padding: their wires are not connected, so sigma is the identity there.
    let (n, q) = (c.degree(), C::ScalarField::order());
    let x = c.subgroup_n[n - 1].val();
    (0..ROUTED).map(|j| mul(&peval(&c.s_sigma_polynomials[j].coeffs().iter().map(|x| x.val()).collect::<Vec<_>>(), &x, &q), &inv(&x, &q), &q)).collect()
}
fn labels<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("labels", C::CNAME, || {
        let q = C::ScalarField::order();
        let ks = shifts::<C>(&CircuitBuilder::<C>::new(128).build());
        let mut cnt = 0;
        for i in 0..ROUTED { for j in 0..i {
            // All labels k_i w^a of the largest circuit the field supports are distinct iff (k_i / k_j)^(2^s) != 1.
            let r = pw(&mul(&ks[i], &inv(&ks[j], &q), &q), &(b(1) << C::ScalarField::TWO_ADICITY), &q);
            ensure!(r != b(1), "columns {} and {} share labels", i, j);
            cnt += 1;
        } }
        Ok(cnt)
    });
}

/// Target alphabet for circuits: wires of several gates, virtual targets, public inputs at both ends of each gate.
fn elements<C: HaloCurve>(pis: &[Target<C::ScalarField>], vs: &[Target<C::ScalarField>]) -> Vec<Target<C::ScalarField>> {
    vec![Target::Wire(wire(0, 0)), Target::Wire(wire(1, 5)), Target::Wire(wire(1, 2)), Target::Wire(wire(2, 0)), vs[0], vs[1], pis[0], pis[5], pis[6], pis[8], pis[9]]
}
const NE: usize = 11;
const PIS: usize = 10;
fn circuit<C: Hx>(reqs: &[(usize, usize)], label: &str, deep: bool, ks: &[B]) -> Result<u64, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut bd = CircuitBuilder::<C>::new(128);
    for g in 0..3 { bd.add_gate_no_constants(BufferGate::new(g)); }
    let pis = bd.add_public_inputs(PIS);
    let vs = bd.add_virtual_targets(2);
    let els = elements::<C>(&pis, &vs);
    for (a, d) in reqs { bd.copy(els[*a], els[*d]); }
    let c = bd.build();
    let (n, q) = (c.degree(), C::ScalarField::order());
    ensure!(c.num_public_inputs == PIS && n == c.gate_constants.len(), "{}: shape", label);
    // The wires that stand for the public inputs: row and column of each, two rows per nine.
    let wire_of = |e: usize| -> Option<Wire> { match e { 0 => Some(wire(0, 0)), 1 => Some(wire(1, 5)), 2 => Some(wire(1, 2)), 3 => Some(wire(2, 0)), 4 | 5 => None,
        _ => { let i = [0usize, 5, 6, 8, 9][e - 6]; let g = c.num_gates_without_pis + 2 * (i / WIRES); let k = i % WIRES; Some(if k < ROUTED { wire(g, k) } else { wire(g + 1, k - ROUTED) }) } } };
    let cl = classes(NE, reqs);
    let idx: HashMap<Wire, usize> = (0..NE).filter_map(|e| wire_of(e).map(|w| (w, cl[e]))).collect();
    // The copies that the builder itself makes for its blinding gates etc. concern other wires: their classes are read back.
    let class = |w: Wire| idx.get(&w).cloned().unwrap_or_else(|| {
        let m = c.routing_target_partitions.get_partition(Target::Wire(w)).iter().filter_map(|t| if let Target::Wire(v) = t { Some(v.gate * 10 + v.input) } else { None }).min().unwrap();
        1000 + m
    });
    // Partitions.
    for e in 0..NE { if let Some(w) = wire_of(e) {
        let got: HashSet<Target<C::ScalarField>> = c.routing_target_partitions.get_partition(Target::Wire(w)).iter().cloned().collect();
        let want: HashSet<Target<C::ScalarField>> = (0..NE).filter(|f| cl[*f] == cl[e]).map(|f| wire_of(f).map(Target::Wire).unwrap_or(els[f])).collect();
        ensure!(got == want, "{}: the class of {:?} is {:?}, expected {:?}", label, w, got, want);
    } }
    // Sigma polynomials: labels at every subgroup point form the permutation whose cycles are the classes.
    ensure!(n == 16, "{}: degree {}", label, n);
    let g = C::ScalarField::primitive_root_of_unity(n.trailing_zeros() as usize).val();
    let pow: Vec<B> = (0..n as u64).map(|i| pw(&g, &b(i), &q)).collect();
    let by_label: HashMap<B, usize> = (0..ROUTED * n).map(|k| (mul(&ks[k / n], &pow[k % n], &q), k)).collect();
    ensure!(by_label.len() == ROUTED * n, "{}: labels repeat", label);
    let mut sigma = vec![];
    let mut svals = vec![];
    for j in 0..ROUTED {
        let co: Vec<B> = c.s_sigma_polynomials[j].coeffs().iter().map(|x| x.val()).collect();
        for i in 0..n {
            let v = peval(&co, &pow[i], &q);
            sigma.push(*by_label.get(&v).ok_or(format!("{}: sigma_{}({}) is not a label", label, j, i))?);
            svals.push(v);
        }
        // The extension used by the prover is the same polynomial on the subgroup of eight times the size.
        let h = c.subgroup_generator_8n.val();
        for i in vec![0usize, 1, 8, n + 3, 8 * n - 1] { ensure!(c.s_sigma_values_8n[j][i].val() == peval(&co, &pw(&h, &b(i as u64), &q), &q), "{}: extended sigma_{} at {}", label, j, i); }
        for i in 0..n { ensure!(c.s_sigma_values_8n[j][8 * i].val() == svals[j * n + i], "{}: extended sigma_{} on the subgroup", label, j); }
    }
    check_sigma(&sigma, n, &class).map_err(|e| format!("{}: {}", label, e))?;
    let mut cnt = 1;
    if deep {
        // The key: commitments to sigma and constant polynomials.
        let cv = crv::<C>();
        let gens: Vec<Pt> = (0..n).map(|i| of_aff(&blake_hash_usize_to_curve::<C>(i))).collect::<Result<_, _>>()?;
        let vk = c.to_vk();
        ensure!(vk.c_s_sigmas.len() == ROUTED && vk.c_constants.len() == 6 && vk.degree == n && vk.num_public_inputs == PIS && vk.num_gates_without_pis == c.num_gates_without_pis && vk.security_bits == 128, "{}: shape of the key", label);
        let com = |vals: &[B]| -> Pt { // commitment to the polynomial with these values, by inverse DFT from the definition
            let ni = inv(&b(n as u64), &q);
            (0..n).fold(None, |a, k| { let co = (0..n).fold(b(0), |s, i| add(&s, &mul(&vals[i], &pow[(n - (i * k) % n) % n], &q), &q)); cv.add(&a, &cv.mul(&mul(&co, &ni, &q), &gens[k])) })
        };
        for j in 0..ROUTED { sa::<C>(&vk.c_s_sigmas[j], &com(&svals[j * n..(j + 1) * n]), &|| format!("{}: key commitment to sigma_{}", label, j))?; }
        for j in 0..6 { sa::<C>(&vk.c_constants[j], &com(&c.gate_constants.iter().map(|r| r[j].val()).collect::<Vec<_>>()), &|| format!("{}: key commitment to constant {}", label, j))?; }
        cnt += 12;
    }
    // Grand product: constant on classes, then with one wire of each kind changed.
    let (beta, gamma) = (generic::<C::ScalarField>(600), generic::<C::ScalarField>(601));
    let full = |k: usize| { let w = wire(k % n, k / n); class(w) };
    let good: Vec<B> = (0..ROUTED * n).map(|k| generic::<C::ScalarField>(full(k) as u64 * 17 + 3).val()).collect();
    let product = |vals: &[B]| -> Result<bool, String> {
        let rows: Vec<Vec<C::ScalarField>> = (0..n).map(|i| (0..WIRES).map(|j| if j < ROUTED { C::ScalarField::of(&vals[j * n + i]) } else { generic::<C::ScalarField>(i as u64) }).collect()).collect();
        let z = permutation_polynomial(n, &c.subgroup_n, &Witness::new(rows), &c.s_sigma_values_8n, beta, gamma);
        let (mut num, mut den) = (b(1), b(1));
        ensure!(z.len() == n, "{}: length of the grand product", label);
        for i in 0..n {
            ensure!(mul(&z[i].val(), &den, &q) == num && z[i].reduced(), "{}: the grand product differs from its definition in row {}", label, i);
            for j in 0..ROUTED {
                let t = |l: &B| add(&add(&vals[j * n + i], &mul(&beta.val(), l, &q), &q), &gamma.val(), &q);
                num = mul(&num, &t(&mul(&ks[j], &pow[i], &q)), &q);
                den = mul(&den, &t(&svals[j * n + i]), &q);
            }
        }
        Ok(num == den)
    };
    ensure!(product(&good)?, "{}: the product does not close for an assignment that is constant on every class", label);
    for e in 0..NE { if let Some(w) = wire_of(e) {
        let alone = (0..ROUTED * n).filter(|k| full(*k) == cl[e]).count() == 1;
        let mut v = good.clone();
        v[w.input * n + w.gate] = add(&v[w.input * n + w.gate], &b(1), &q);
        ensure!(product(&v)? == alone, "{}: wire {:?} changed, in a class {}: the product {}", label, w, if alone { "of its own" } else { "with others" }, if alone { "does not close" } else { "closes" });
        cnt += 1;
    } }
    Ok(cnt)
}
fn circuits<C: Hx>(ctx: &'static Ctx, every: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let pairs: Vec<(usize, usize)> = (0..NE).flat_map(|a| (0..=a).map(move |d| if (a + d) % 2 == 0 { (a, d) } else { (d, a) })).collect();
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for p in &pairs { seqs.push(vec![*p]); }
    for (i, p) in pairs.iter().enumerate() { for (j, r) in pairs.iter().enumerate() { if p.0 != p.1 && r.0 != r.1 && (ctx.thorough || (i * 7 + j) % every == 0) { seqs.push(vec![*p, *r]); } } }
    // Longer chains, stars and overlapping requests, forwards and backwards.
    for k in 0..NE {
        seqs.push((0..NE - 1).map(|i| ((i + k) % NE, (i + k + 1) % NE)).collect());
        seqs.push((0..NE - 1).rev().map(|i| ((i + k + 1) % NE, (i + k) % NE)).collect());
        seqs.push((0..NE).filter(|i| *i != k).map(|i| (i, k)).collect());
        seqs.push((0..NE).step_by(2).map(|i| (i, (i + k) % NE)).chain((1..NE).step_by(2).map(|i| ((i + 2 * k) % NE, i))).collect());
        seqs.push((0..NE / 2).map(|i| (i, NE - 1 - i)).chain((0..NE / 2).map(|i| ((i + k) % 5, 5 + (i * k) % 6))).collect());
    }
    let ks = { let mut free = CircuitBuilder::<C>::new(128); while free.num_gates() + 3 < 16 { let g = free.num_gates(); free.add_gate_no_constants(BufferGate::new(g)); } shifts(&free.build()) };
    ctx.par(seqs.into_iter().enumerate().collect(), move |(i, s)| {
        let deep = i % 16 == 1;
        ctx.bulk("circuit", &format!("{} copies {:?}", C::CNAME, s), || { ctx.traces(1); circuit::<C>(s, &format!("copies {:?}", s), deep, &ks) });
    });
}

fn main() {
    run("C11", "model_checking", "distinct = one merge in one sequence of merges, or one circuit and assignment", |ctx| {
        merges(ctx, ctx.tier(3, 4));
        all_pairs!(labels(ctx));
        circuits::<Tweedledee>(ctx, 12);
        circuits::<Tweedledum>(ctx, 200); circuits::<Pallas>(ctx, 200); circuits::<Vesta>(ctx, 200);
    })
}
