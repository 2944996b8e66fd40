//! C25: partial and full witnesses against a map: every sequence of writes to a depth, every read after each.
use mc::alpha::*;
use mc::circ::*;
use mc::refm::*;
use mc::*;
use plonky::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashSet};

type FF = Bls12377Scalar;
const N: usize = 9;
const LIMB: usize = 86;

/// One write, over target indices and value indices.
#[derive(Clone, Debug)]
enum Op { Set(usize, usize), Wire(usize, usize), Many(Vec<usize>, Vec<usize>), Point(usize, usize, usize), Points(Vec<(usize, usize)>, Vec<usize>), Order([usize; 3], Ordering), Big(Vec<usize>, usize), Foreign(Vec<usize>, usize), Extend(Vec<(usize, usize)>) }

struct W<F: Fx> { ts: Vec<Target<F>>, vals: Vec<F>, bigs: Vec<B>, ops: Vec<Op>, inner: Vec<(F, F)>, states: HashSet<Vec<Option<B>>>, trans: u64, refused: u64 }
type M = BTreeMap<usize, B>;

fn targets<F: Fx>() -> Vec<Target<F>> {
    let w = |gate, input| Target::Wire(Wire { gate, input });
    vec![Target::VirtualTarget(VirtualTarget { index: 0 }), Target::VirtualTarget(VirtualTarget { index: 1 }), Target::VirtualTarget(VirtualTarget { index: 5 }), w(0, 0), w(0, 8), w(1, 5), w(2, 3), Target::PublicInput(PublicInput::new(0)), Target::PublicInput(PublicInput::new(1))]
}
fn limbs(v: &B, n: usize) -> Option<Vec<B>> {
    if v.bits() as usize > n * LIMB { return None; }
    let m = (b(1) << LIMB) - 1u32;
    Some((0..n).map(|i| (v >> (i * LIMB)) & &m).collect())
}
impl<F: Fx> W<F> {
    fn big(&self, l: &[usize], m: &M) -> Option<B> { let mut s = b(0); for (i, t) in l.iter().enumerate() { s += m.get(t)? << (i * LIMB); } Some(s) }
    /// What the write stores according to the model; None if it must be refused.
    fn pairs(&self, op: &Op) -> Option<Vec<(usize, B)>> {
        let v = |i: &usize| self.vals[*i].val();
        Some(match op {
            Op::Set(t, x) | Op::Wire(t, x) => vec![(*t, v(x))],
            Op::Many(t, x) => t.iter().cloned().zip(x.iter().map(v)).collect(),
            Op::Point(x, y, p) => vec![(*x, self.inner[*p].0.val()), (*y, self.inner[*p].1.val())],
            Op::Points(t, p) => t.iter().zip(p).flat_map(|((x, y), p)| vec![(*x, self.inner[*p].0.val()), (*y, self.inner[*p].1.val())]).collect(),
            Op::Order(t, o) => { let k = match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 }; (0..3).map(|i| (t[i], b((i == k) as u64))).collect() }
            Op::Big(t, x) | Op::Foreign(t, x) => t.iter().cloned().zip(limbs(&self.bigs[*x], t.len())?).collect(),
            Op::Extend(l) => l.iter().map(|(t, x)| (*t, v(x))).collect(),
        })
    }
    fn model(&self, m: &M, op: &Op) -> Option<M> {
        let mut m = m.clone();
        for (t, x) in self.pairs(op)? { if let Some(old) = m.get(&t) { if *old != x { return None; } } m.insert(t, x); }
        Some(m)
    }
}
fn apply<F: Fx, C: HaloCurve<BaseField = F>>(w: &W<F>, pw: &mut PartialWitness<F>, op: &Op) {
    let t = |i: &usize| w.ts[*i];
    let bt = |l: &[usize]| BigIntTarget { limbs: l.iter().map(t).collect(), max: (b(1) << (LIMB * l.len())) - 1u32 };
    let pt = |x: &usize, y: &usize| AffinePointTarget::<C> { x: t(x), y: t(y) };
    let p = |i: &usize| AffinePoint::<C>::nonzero(w.inner[*i].0, w.inner[*i].1);
    match op {
        Op::Set(i, x) => pw.set_target(t(i), w.vals[*x]),
        Op::Wire(i, x) => if let Target::Wire(y) = t(i) { pw.set_wire(y, w.vals[*x]) },
        Op::Many(l, x) => pw.set_targets(&l.iter().map(t).collect::<Vec<_>>(), &x.iter().map(|i| w.vals[*i]).collect::<Vec<_>>()),
        Op::Point(x, y, i) => pw.set_point_target(pt(x, y), p(i)),
        Op::Points(l, i) => pw.set_point_targets(&l.iter().map(|(x, y)| pt(x, y)).collect::<Vec<_>>(), &i.iter().map(p).collect::<Vec<_>>()),
        Op::Order(l, o) => pw.set_ordering_target(OrderingTarget { lt: t(&l[0]), eq: t(&l[1]), gt: t(&l[2]) }, *o),
        Op::Big(l, x) => pw.set_bigint_target(&bt(l), &w.bigs[*x]),
        Op::Foreign(l, x) => { let mut f = ForeignFieldTarget::<F, FF>::zero(); f.value = bt(l); pw.set_foreign_field_target(&f, FF::of(&w.bigs[*x])) }
        Op::Extend(l) => { let mut o = PartialWitness::new(); for (i, x) in l { o.set_target(t(i), w.vals[*x]); } pw.extend(o) }
    }
}
/// Orderings, big integers and foreign field elements over three targets.
fn typed<F: Fx>(w: &W<F>, pw: &PartialWitness<F>, m: &M, l: &[usize; 3]) -> R {
    let t: Vec<Target<F>> = l.iter().map(|i| w.ts[*i]).collect();
        if l.iter().all(|i| m.contains_key(i)) {
            let o: Vec<u64> = l.iter().map(|i| if m[i] == b(0) { 0 } else if m[i] == b(1) { 1 } else { 2 }).collect();
            let want = match o[..] { [1, 0, 0] => Some(Ordering::Less), [0, 1, 0] => Some(Ordering::Equal), [0, 0, 1] => Some(Ordering::Greater), _ => None };
            let got = silent(|| pw.get_ordering_target(OrderingTarget { lt: t[0], eq: t[1], gt: t[2] }));
            ensure!(got == want, "get_ordering_target of {:?}: {:?}", l.iter().map(|i| &m[i]).collect::<Vec<_>>(), got);
        }
        for n in 0..=3 {
            if let Some(v) = w.big(&l[..n], m) {
                let bt = BigIntTarget { limbs: t[..n].to_vec(), max: b(1) << 300usize };
                ensure!(pw.get_bigint_target(&bt) == v, "get_bigint_target of {} limbs: {}, expected {}", n, pw.get_bigint_target(&bt), v);
                if v < FF::order() { let mut f = ForeignFieldTarget::<F, FF>::zero(); f.value = bt; ensure!(pw.get_foreign_field_target(&f).val() == v, "get_foreign_field_target of {}", v); }
            }
        }
        Ok(())
}
/// Every read against the model.
fn reads<F: Fx, C: HaloCurve<BaseField = F>>(w: &W<F>, pw: &PartialWitness<F>, m: &M, deep: bool) -> R {
    ensure!(pw.is_empty() == m.is_empty(), "is_empty is {} after writes to {:?}", pw.is_empty(), m.keys());
    let pop: Vec<Target<F>> = pw.all_populated_targets();
    let want: HashSet<Target<F>> = m.keys().map(|k| w.ts[*k]).collect();
    ensure!(pop.len() == want.len() && pop.iter().cloned().collect::<HashSet<_>>() == want, "all_populated_targets: {:?}, expected {:?}", pop, want);
    for (i, t) in w.ts.iter().enumerate() {
        ensure!(pw.contains_target(*t) == m.contains_key(&i), "contains_target({:?})", t);
        if let Some(x) = m.get(&i) { ensure!(&pw.get_target(*t).val() == x, "{:?} is {:?}, written was {:?}", t, pw.get_target(*t), x); }
        else if deep { ensure!(catch(|| pw.get_target(*t)).is_err(), "a value is read from {:?}, which has none", t); }
        if let Target::Wire(y) = t {
            ensure!(pw.contains_wire(*y) == m.contains_key(&i), "contains_wire({:?})", y);
            if let Some(x) = m.get(&i) { ensure!(&pw.get_wire(*y).val() == x, "get_wire({:?})", y); }
        }
    }
    for mask in (0..1usize << N).step_by(if deep { 1 } else { 37 }) {
        let l: Vec<usize> = (0..N).rev().filter(|i| mask >> i & 1 == 1).collect();
        let tl: Vec<_> = l.iter().map(|i| w.ts[*i]).collect();
        let all = l.iter().all(|i| m.contains_key(i));
        ensure!(pw.contains_all_targets(&tl) == all, "contains_all_targets({:?})", tl);
        if all { ensure!(pw.get_targets(&tl).iter().zip(&l).all(|(x, i)| x.val() == m[i]), "get_targets({:?})", tl); }
    }
    // Typed reads over several choices of targets.
    for l in &[[0usize, 1, 2], [3, 0, 7], [2, 1, 0], [6, 5, 4]] {
        let t: Vec<Target<F>> = l.iter().map(|i| w.ts[*i]).collect();
        if let (Some(x), Some(y)) = (m.get(&l[0]), m.get(&l[1])) {
            let on = |x: &B, y: &B| { let o = F::order(); (y * y + o.clone() * o.clone() * b(3) - x * x * x % o.clone()) % &o };
            let (gx, gy) = (C::GENERATOR_AFFINE.x.val(), C::GENERATOR_AFFINE.y.val());
            // Coordinates that are not those of a point of the curve have no point to be read as.
            if on(x, y) != on(&gx, &gy) { typed(w, pw, m, l)?; continue; }
            let p = pw.get_point_target(AffinePointTarget::<C> { x: t[0], y: t[1] });
            ensure!(!p.zero && &p.x.val() == x && &p.y.val() == y, "get_point_target: {:?}, expected ({}, {})", p, x, y);
        }
        typed(w, pw, m, l)?;
    }
    // The full witness.
    for degree in 1..4usize {
        let full = Witness::from_partial(pw, degree);
        let tr = full.transpose();
        ensure!(tr.len() == WIRES && tr.iter().all(|c| c.len() == degree), "transpose of {} gates", degree);
        for g in 0..degree { for i in 0..WIRES {
            let k = w.ts.iter().position(|t| *t == Target::Wire(Wire { gate: g, input: i }));
            let want = k.and_then(|k| m.get(&k).cloned()).unwrap_or(b(0));
            for (nm, x) in vec![("get", full.get(Wire { gate: g, input: i })), ("get_indices", full.get_indices(g, i)), ("transpose", tr[i][g])] { ensure!(x.val() == want, "{} of gate {} wire {}: {:?}, expected {}", nm, g, i, x, want); }
        } }
    }
    Ok(())
}
fn walk<F: Fx, C: HaloCurve<BaseField = F>>(w: &mut W<F>, hist: &mut Vec<usize>, m: &M, depth: usize, first: Option<usize>) -> R {
    if depth == 0 { return Ok(()); }
    for k in 0..w.ops.len() {
        if let Some(f) = first { if f != k { continue; } }
        let op = w.ops[k].clone();
        let next = w.model(m, &op);
        let mut pw = PartialWitness::new();
        for h in hist.iter() { apply::<F, C>(w, &mut pw, &w.ops[*h]); }
        let r = catch(|| apply::<F, C>(w, &mut pw, &op));
        w.trans += 1;
        let names = || hist.iter().map(|h| &w.ops[*h]).chain(vec![&op]).collect::<Vec<_>>();
        match next {
            None => { ensure!(r.is_err(), "after {:?}: a write that contradicts an earlier one or does not fit was not refused", names()); w.refused += 1; }
            Some(n) => {
                if let Err(e) = r { return Err(format!("after {:?}: {}", names(), e)); }
                let key = (0..N).map(|i| n.get(&i).cloned()).collect();
                let new = !w.states.contains(&key);
                if new || depth > 1 || k % 5 == 0 { if let Err(e) = reads::<F, C>(w, &pw, &n, new && w.states.len() % 16 == 0) { return Err(format!("after {:?}: {}", names(), e)); } }
                w.states.insert(key);
                hist.push(k);
                walk::<F, C>(w, hist, &n, depth - 1, None)?;
                hist.pop();
            }
        }
    }
    Ok(())
}
fn world<F: Fx, C: HaloCurve<BaseField = F>>() -> W<F> {
    let g = generic::<F>(3);
    let vals = vec![F::ZERO, <F as Field>::ONE, g, F::of(&((b(1) << LIMB) - 1u32))];
    let ord = FF::order();
    let bigs = vec![b(0), b(1), b(1) << LIMB, (b(1) << (2 * LIMB)) - 1u32, b(1) << (2 * LIMB), &ord - 1u32, (b(1) << (LIMB - 1)) + 1u32];
    let p = C::GENERATOR_AFFINE;
    let q = C::GENERATOR_PROJECTIVE.double().to_affine();
    let mut ops = vec![];
    for t in 0..N { for v in 0..3 { if t < 4 || v < 2 || t == 7 { ops.push(Op::Set(t, v)); } } }
    for t in 3..7 { ops.push(Op::Wire(t, 1)); ops.push(Op::Wire(t, 3)); }
    ops.push(Op::Many(vec![], vec![])); ops.push(Op::Many(vec![2, 1, 0], vec![1, 0, 0])); ops.push(Op::Many(vec![0, 1, 2], vec![1, 1, 0])); ops.push(Op::Many(vec![3, 7, 3], vec![1, 2, 1])); ops.push(Op::Many(vec![3, 7, 3], vec![1, 2, 0])); ops.push(Op::Many(vec![6, 5, 4], vec![0, 0, 1]));
    ops.push(Op::Point(0, 1, 0)); ops.push(Op::Point(3, 0, 1)); ops.push(Op::Points(vec![(0, 1), (3, 7)], vec![0, 1])); ops.push(Op::Points(vec![(6, 5)], vec![1]));
    for o in &[Ordering::Less, Ordering::Equal, Ordering::Greater] { ops.push(Op::Order([0, 1, 2], *o)); }
    ops.push(Op::Order([3, 0, 7], Ordering::Greater)); ops.push(Op::Order([6, 5, 4], Ordering::Equal));
    for v in 0..5 { ops.push(Op::Big(vec![0, 1], v)); }
    ops.push(Op::Big(vec![], 0)); ops.push(Op::Big(vec![], 1)); ops.push(Op::Big(vec![2], 6)); ops.push(Op::Big(vec![2], 2)); ops.push(Op::Big(vec![6, 5, 4], 4));
    for v in &[0usize, 1, 4, 5] { ops.push(Op::Foreign(vec![0, 1, 2], *v)); }
    ops.push(Op::Foreign(vec![3, 0], 3));
    ops.push(Op::Extend(vec![])); ops.push(Op::Extend(vec![(0, 1)])); ops.push(Op::Extend(vec![(0, 0), (1, 1), (2, 0)])); ops.push(Op::Extend(vec![(3, 2), (7, 1), (8, 0)])); ops.push(Op::Extend(vec![(4, 1), (8, 1)]));
    W { ts: targets(), vals, bigs, ops, inner: vec![(p.x, p.y), (q.x, q.y)], states: HashSet::new(), trans: 0, refused: 0 }
}
fn explore<F: Fx, C: HaloCurve<BaseField = F>>(ctx: &'static Ctx, depth: usize) {
    let n = world::<F, C>().ops.len();
    ctx.par((0..n).collect(), move |&i| {
        let mut w = world::<F, C>();
        ctx.bulk("write histories", &format!("{} every history of {} writes beginning with {:?}", F::NAME, depth, w.ops[i]), || {
            if i == 0 { let pw = PartialWitness::new(); reads::<F, C>(&w, &pw, &M::new(), true)?; reads::<F, C>(&w, &PartialWitness::default(), &M::new(), true)?; }
            walk::<F, C>(&mut w, &mut vec![], &M::new(), depth, Some(i))?;
            ctx.states(w.states.len() as u64); ctx.transitions(w.trans); ctx.traces(w.trans);
            Ok(w.trans)
        });
    });
}
fn main() {
    run("C25", "model_checking", "distinct = one write at the end of one history", |ctx| {
        explore::<TweedledeeBase, Tweedledee>(ctx, 3);
        explore::<VestaBase, Vesta>(ctx, 3);
        if ctx.thorough { explore::<PallasBase, Pallas>(ctx, 3); explore::<TweedledumBase, Tweedledum>(ctx, 4); }
    });
}
