//! C10: the transcript, explored over all operation sequences up to a depth, against a duplex-sponge model.
use mc::alpha::*;
use mc::circ::*;
use mc::refm::*;
use mc::resc::*;
use mc::*;
use plonky::plonk_challenger::Challenger;
use plonky::*;
use std::collections::{HashMap, HashSet};

/// Model state: sponge, pending inputs, outputs still available. Permutations are memoised.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Model { st: Vec<B>, inp: Vec<B>, out: Vec<B> }
struct Env { r: Ref, memo: HashMap<Vec<B>, Vec<B>> }
impl Env {
    fn perm(&mut self, s: &[B]) -> Vec<B> {
        if let Some(v) = self.memo.get(s) { return v.clone(); }
        let v = self.r.perm(s);
        self.memo.insert(s.to_vec(), v.clone());
        v
    }
}
impl Model {
    fn new() -> Model { Model { st: vec![b(0); 4], inp: vec![], out: vec![] } }
    fn observe(&mut self, x: &B) { self.out.clear(); self.inp.push(x.clone()); }
    fn squeeze(&mut self, e: &mut Env) -> B {
        let inp = std::mem::take(&mut self.inp);
        for ch in inp.chunks(3) {
            for (i, x) in ch.iter().enumerate() { self.st[i] = add(&self.st[i], x, &e.r.p); }
            self.st = e.perm(&self.st);
        }
        if !inp.is_empty() { self.out = self.st[..3].to_vec(); }
        if self.out.is_empty() { self.st = e.perm(&self.st); self.out = self.st[..3].to_vec(); }
        self.out.pop().unwrap()
    }
}

/// Depth-first over every sequence of {observe v, squeeze}; the implementation is stepped alongside.
struct Walk<F: Fx> { env: Env, vals: Vec<B>, states: HashSet<Model>, trans: u64, traces: u64, fresh: u64, leaf: u64, p: std::marker::PhantomData<F>,
    /// Challenges by (shape of the sequence, position) and observed values so far.
    by_shape: HashMap<(Vec<bool>, B), Vec<B>> }
impl<F: Fx> Walk<F> {
    fn go(&mut self, m: &Model, c: &Challenger<F>, ops: &mut Vec<Option<usize>>, squeezed: &mut Vec<B>, depth: usize) -> R {
        self.states.insert(m.clone());
        if depth == 0 { return self.replay(ops, squeezed); }
        for v in 0..self.vals.len() {
            let (mut m2, mut c2) = (m.clone(), c.clone());
            m2.observe(&self.vals[v]);
            c2.observe_element(F::of(&self.vals[v]));
            self.trans += 1;
            ops.push(Some(v)); self.go(&m2, &c2, ops, squeezed, depth - 1)?; ops.pop();
        }
        let (mut m2, mut c2) = (m.clone(), c.clone());
        let want = m2.squeeze(&mut self.env);
        let got = c2.get_challenge();
        self.trans += 1;
        ops.push(None);
        ensure!(got.reduced(), "{:?}: unreduced challenge", ops);
        ensure!(!squeezed.contains(&got.val()), "{}: after {:?} the challenge {} was squeezed before", F::NAME, ops, got.val());
        ensure!(got.val() == want, "{}: after {:?} the challenge is {}, expected {}", F::NAME, ops, got.val(), want);
        // Same kinds of operations, other observed values (changed or swapped): another challenge.
        let shape: Vec<bool> = ops.iter().map(|o| o.is_some()).collect();
        let seen: Vec<B> = ops.iter().flatten().map(|v| b(*v as u64)).collect();
        if let Some(o) = self.by_shape.insert((shape, want.clone()), seen.clone()) { ensure!(o == seen, "observing {:?} and {:?} gives the same challenge ({:?})", o, seen, ops); }
        squeezed.push(got.val());
        self.go(&m2, &c2, ops, squeezed, depth - 1)?;
        squeezed.pop();
        ops.pop();
        Ok(())
    }
    /// The whole sequence again on a fresh challenger, grouped into as few calls as possible.
    fn replay(&mut self, ops: &[Option<usize>], squeezed: &[B]) -> R {
        self.traces += 1;
        self.leaf += 1;
        if self.leaf % 3 != 0 { return Ok(()); }
        let mut c = Challenger::<F>::new(128);
        let (mut i, mut got) = (0, vec![]);
        while i < ops.len() {
            let j = (i..ops.len()).find(|j| ops[*j].is_some() != ops[i].is_some()).unwrap_or(ops.len());
            if ops[i].is_some() {
                let xs: Vec<F> = ops[i..j].iter().map(|v| F::of(&self.vals[v.unwrap()])).collect();
                c.observe_elements(&xs[..xs.len() / 2]); c.observe_elements(&[]); c.observe_elements(&xs[xs.len() / 2..]);
            } else {
                let n = j - i;
                if self.leaf % 2 == 0 {
                    // Observing nothing at all between two squeezes changes nothing.
                    for _ in 0..n { c.observe_elements(&[]); got.push(c.get_challenge()); c.observe_elements(&[]); }
                } else { match n { 2 => { let (x, y) = c.get_2_challenges(); got.push(x); got.push(y); } 3 => { let (x, y, z) = c.get_3_challenges(); got.extend(vec![x, y, z]); } _ => got.extend(c.get_n_challenges(n)) } }
            }
            i = j;
        }
        ensure!(got.len() == squeezed.len() && got.iter().zip(squeezed).all(|(x, y)| &x.val() == y), "{}: {:?} grouped into as few calls as possible: {:?} instead of {:?}", F::NAME, ops, got, squeezed);
        self.fresh += 1;
        Ok(())
    }
}

fn explore<F: Fx>(ctx: &'static Ctx, depth: usize) {
    let g = generic::<F>(2).val();
    // Alphabets: distinct non-zero values; close pairs and boundary values.
    let alph: Vec<Vec<B>> = vec![vec![b(1), g.clone()], vec![F::order() - 1u32, b(1) << 128usize], vec![g.clone(), add(&g, &b(1), &F::order()), neg(&g, &F::order())]];
    ctx.par(alph, move |vals| {
        let depth = if vals.len() == 3 { depth - 2 } else { depth };
        ctx.bulk("sequences", &format!("{} every sequence of {} operations over {:?}", F::NAME, depth, vals), || {
            let mut w = Walk::<F> { env: Env { r: reference::<F>(4, 128), memo: HashMap::new() }, vals: vals.clone(), states: HashSet::new(), trans: 0, traces: 0, fresh: 0, leaf: 0, p: Default::default(), by_shape: HashMap::new() };
            w.go(&Model::new(), &Challenger::new(128), &mut vec![], &mut vec![], depth)?;
            ctx.states(w.states.len() as u64); ctx.transitions(w.trans); ctx.traces(w.traces + w.fresh);
            Ok(w.trans)
        });
    });
}

/// Long observation lists: each single change, and each swap, against every later challenge.
fn long<F: Fx>(ctx: &'static Ctx) {
    ctx.bulk("long", &format!("{} single changes and swaps", F::NAME), || {
        let mut cnt = 0;
        let p = F::order();
        for n in vec![1usize, 2, 3, 4, 6, 7, 10, ctx.tier(13, 33)] {
            let xs: Vec<B> = (0..n as u64).map(|i| generic::<F>(i + 77).val()).collect();
            // Squeeze at three places: before, in the middle and at the end.
            let run = |xs: &[B], bits: usize| -> Vec<Vec<B>> {
                let mut c = Challenger::<F>::new(bits);
                let mut o = vec![c.get_n_challenges(2)];
                c.observe_elements(&xs[..n / 2].iter().map(|x| F::of(x)).collect::<Vec<_>>()); o.push(c.get_n_challenges(4));
                c.observe_elements(&xs[n / 2..].iter().map(|x| F::of(x)).collect::<Vec<_>>()); o.push(c.get_n_challenges(5));
                o.iter().map(|v| v.iter().map(|x| x.val()).collect()).collect()
            };
            let base = run(&xs, 128);
            ensure!(base == run(&xs, 128), "the same transcript gives other challenges");
            let flat: Vec<&B> = base.iter().flatten().collect();
            ensure!(flat.iter().collect::<HashSet<_>>().len() == flat.len(), "a challenge repeats: {:?}", base);
            let mut alts: Vec<(usize, Vec<B>)> = vec![];
            for i in 0..n {
                for d in vec![b(1), &p - 1u32, b(1) << 64usize, b(1) << 200usize, neg(&(&xs[i] * 2u32), &p), neg(&xs[i], &p)] { let mut y = xs.clone(); y[i] = add(&y[i], &d, &p); alts.push((i, y)); }
                for j in 0..i { let mut y = xs.clone(); y.swap(i, j); alts.push((j, y)); }
            }
            for (i, y) in alts {
                let o = run(&y, 128);
                for k in 0..3 {
                    let later = (k == 1 && i < n / 2) || k == 2;
                    for (x, z) in base[k].iter().zip(&o[k]) { ensure!((x != z) == later, "{} observations, element {} changed or swapped to {:?}: challenges of group {} {}", n, i, y, k, if later { "do not change" } else { "change" }); }
                }
                cnt += 1;
            }
        }
        Ok(cnt)
    });
}
fn points<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("points", C::CNAME, || {
        let g = C::GENERATOR_AFFINE;
        let pts: Vec<AffinePoint<C>> = vec![g, -g, AffinePoint::ZERO, C::GENERATOR_PROJECTIVE.double().to_affine(), (C::GENERATOR_PROJECTIVE.double() + g).to_affine()];
        let z = C::BaseField::ZERO;
        let co = |p: &AffinePoint<C>| if p.zero { vec![z, z] } else { vec![p.x, p.y] };
        let get = |f: &dyn Fn(&mut Challenger<C::BaseField>)| { let mut c = Challenger::new(128); f(&mut c); c.get_n_challenges(4) };
        let mut seen: HashMap<Vec<B>, (usize, usize)> = HashMap::new();
        let mut cnt = 0;
        for i in 0..pts.len() {
            for j in 0..pts.len() {
                let l = [pts[i], pts[j]];
                let pr: Vec<ProjectivePoint<C>> = l.iter().map(|p| p.to_projective()).collect();
                // Another representative of the same point.
                let pr2: Vec<ProjectivePoint<C>> = pr.iter().map(|p| p.double() + (-*p)).collect();
                let want = get(&|c| { for p in &l { c.observe_elements(&co(p)); } });
                for (nm, got) in vec![
                    ("observe_affine_point", get(&|c| { for p in &l { c.observe_affine_point(*p); } })), ("observe_affine_points", get(&|c| c.observe_affine_points(&l))),
                    ("observe_proj_point", get(&|c| { for p in &pr { c.observe_proj_point(*p); } })), ("observe_proj_points", get(&|c| c.observe_proj_points(&pr2))) ] {
                    ensure!(got == want, "{} of {:?}: other challenges than for the coordinates", nm, l); cnt += 1;
                }
                ensure!(seen.insert(want.iter().map(|x| x.val()).collect(), (i, j)).is_none(), "points {:?}: challenges of another pair of points", l);
            }
        }
        Ok(cnt)
    });
}
/// Points observed in the circuit, one by one and as lists.
fn points_in_circuit<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("points in circuit", C::CNAME, || {
        let mut bd = CircuitBuilder::<C>::new(128);
        let mut all = vec![];
        for rs in vec![vec![(1, 1), (1, 1)], vec![(2, 3), (2, 2)], vec![(0, 1), (3, 1)]] {
            let ts: Vec<(Vec<AffinePointTarget<C::Inner>>, usize)> = rs.iter().map(|(o, s)| ((0..*o).map(|_| bd.add_virtual_point_target()).collect(), *s)).collect();
            let outs = verif_hooks::recursive_point_challenges::<C, C::Inner>(&mut bd, &ts);
            all.push((ts, outs));
        }
        let c = bd.build();
        let mut cnt = 0;
        for k in 0..3u64 {
            let val = |i: usize, j: usize| -> AffinePoint<C::Inner> {
                let g = <C::Inner as Curve>::GENERATOR_AFFINE;
                match k { 0 => (<C::Inner as Curve>::convert(<<C::Inner as Curve>::ScalarField as Field>::from_canonical_usize(i * 8 + j + 2)) * g.to_projective()).to_affine(), 1 => g, _ => if (i + j) % 2 == 0 { g } else { -g } }
            };
            let mut w = PartialWitness::new();
            for (ts, _) in &all { for (i, (t, _)) in ts.iter().enumerate() { for (j, x) in t.iter().enumerate() { w.set_point_target(*x, val(i, j)); } } }
            let pw = c.generate_partial_witness(w);
            for (ts, outs) in &all {
                let mut n = Challenger::<C::ScalarField>::new(128);
                for (i, (t, s)) in ts.iter().enumerate() {
                    for j in 0..t.len() { n.observe_affine_point(val(i, j)); }
                    let want = n.get_n_challenges(*s);
                    for o in &outs[i] { ensure!(pw.contains_target(*o), "a challenge is not generated"); }
                    let got = pw.get_targets(&outs[i]);
                    ensure!(got == want, "points per round {:?} inputs {}: round {}: in circuit {:?}, native {:?}", ts.iter().map(|t| (t.0.len(), t.1)).collect::<Vec<_>>(), k, i, got, want);
                }
                cnt += 1; ctx.traces(1);
            }
            satisfied::<C, C::Inner>(&c, &wit(&Witness::from_partial(&pw, c.degree()), c.degree()))?;
        }
        Ok(cnt)
    });
}
fn in_circuit<C: Hx>(ctx: &'static Ctx, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    // Every transcript of up to two rounds (observations, squeezes), and some of three.
    let mut rounds: Vec<Vec<(usize, usize)>> = vec![];
    let one: Vec<(usize, usize)> = (0..=5).flat_map(|o| (0..=5).map(move |s| (o, s))).collect();
    for a in &one { rounds.push(vec![*a]); }
    let few: Vec<(usize, usize)> = if full { (0..=4).flat_map(|o| (0..=4).map(move |s| (o, s))).collect() } else { vec![(0, 1), (1, 1), (3, 2), (4, 4)] };
    for a in &few { for c in &few { if full && !ctx.thorough && (a.0 + a.1 + c.0 + c.1) % 3 != 1 { continue; } rounds.push(vec![*a, *c, (1, 1)]); } }
    if full { let f = [(0, 4), (1, 3), (3, 1), (4, 2)]; for a in &f { for c in &f { for d in &f { rounds.push(vec![*a, *c, *d, (2, 4)]); } } } }
    // Batches of transcripts share one circuit, which keeps the cost of building low.
    let batches: Vec<Vec<Vec<(usize, usize)>>> = rounds.chunks(6).map(|c| c.to_vec()).collect();
    ctx.par_n(4, batches, move |batch| {
        ctx.bulk("in circuit", &format!("{} (observations, squeezes) {:?}", C::CNAME, batch), || {
            let mut bd = CircuitBuilder::<C>::new(128);
            let mut all = vec![];
            for rs in batch {
                let ts: Vec<(Vec<Target<C::ScalarField>>, usize)> = rs.iter().map(|(o, s)| (bd.add_virtual_targets(*o), *s)).collect();
                let outs = verif_hooks::recursive_challenges(&mut bd, &ts);
                all.push((ts, outs));
            }
            let c = bd.build();
            let mut cnt = 0;
            for k in 0..2u64 {
                let val = |i: usize, j: usize| if k == 0 { generic::<C::ScalarField>((i * 8 + j) as u64) } else { C::ScalarField::u(((i * 3 + j) % 2) as u64) };
                let mut w = PartialWitness::new();
                for (ts, _) in &all { for (i, (t, _)) in ts.iter().enumerate() { for (j, x) in t.iter().enumerate() { w.set_target(*x, val(i, j)); } } }
                let pw = c.generate_partial_witness(w);
                for (ts, outs) in &all {
                    let mut n = Challenger::<C::ScalarField>::new(128);
                    for (i, (t, s)) in ts.iter().enumerate() {
                        n.observe_elements(&(0..t.len()).map(|j| val(i, j)).collect::<Vec<_>>());
                        let want = n.get_n_challenges(*s);
                        for o in &outs[i] { ensure!(pw.contains_target(*o), "a challenge is not generated"); }
                        let got = pw.get_targets(&outs[i]);
                        ensure!(got == want, "{:?} inputs {}: round {}: in circuit {:?}, native {:?}", ts.iter().map(|t| (t.0.len(), t.1)).collect::<Vec<_>>(), k, i, got, want);
                    }
                    cnt += 1; ctx.traces(1);
                }
                satisfied::<C, C::Inner>(&c, &wit(&Witness::from_partial(&pw, c.degree()), c.degree()))?;
            }
            Ok(cnt)
        });
    });
}

fn main() {
    run("C10", "model_checking", "distinct = one operation in one sequence, one altered transcript, one list of points or one in-circuit transcript", |ctx| {
        ctx.par((0..12usize).collect(), move |&i| match i {
            0 => explore::<VestaBase>(ctx, ctx.tier(8, 9)), 1 => explore::<TweedledumBase>(ctx, ctx.tier(7, 9)), 2 => explore::<TweedledeeBase>(ctx, ctx.tier(7, 9)), 3 => explore::<PallasBase>(ctx, ctx.tier(7, 9)),
            4 => in_circuit::<Tweedledee>(ctx, true), 5 => { in_circuit::<Tweedledum>(ctx, false); points_in_circuit::<Tweedledee>(ctx); if ctx.thorough { points_in_circuit::<Pallas>(ctx); points_in_circuit::<Vesta>(ctx); points_in_circuit::<Tweedledum>(ctx); } }, 6 => in_circuit::<Pallas>(ctx, false), 7 => in_circuit::<Vesta>(ctx, false),
            8 => { long::<VestaBase>(ctx); explore::<Bls12377Base>(ctx, 5) } 9 => { points::<Tweedledee>(ctx); points::<Tweedledum>(ctx); points::<Pallas>(ctx); points::<Vesta>(ctx) }
            10 => long::<TweedledeeBase>(ctx), _ => { long::<Bls12377Scalar>(ctx); long::<PallasBase>(ctx) }
        });
    })
}
