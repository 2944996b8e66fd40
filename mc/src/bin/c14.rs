//! C14: big-integer, comparison and foreign-field gadgets are exact and admit no other result.
use mc::alpha::*;
use mc::circ::*;
use mc::model::*;
use mc::refm::*;
use mc::*;
use plonky::*;
use std::collections::BTreeSet;

const LB: u32 = 86; // limb width
type Bi<C> = BigIntTarget<<C as Curve>::ScalarField>;
type Tg<C> = Target<<C as Curve>::ScalarField>;

fn p2(k: u32) -> B { b(1) << k }
fn hx(x: &B) -> String { x.to_str_radix(16) }
fn limbs(v: &B, n: usize) -> Vec<B> { (0..n).map(|i| (v >> (LB * i as u32)) % p2(LB)).collect() }
fn val<C: Hx>(m: &Model<C>, s: &St<C::ScalarField>, t: &Bi<C>) -> B where C::BaseField: Fx, C::ScalarField: Fx { t.limbs.iter().enumerate().fold(b(0), |a, (i, l)| a + (m.get(s, *l).val() << (LB * i as u32))) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Add, Mul, Cmp, Div, Many }
/// Values around limb boundaries within a bound.
fn values(max: &B, k: usize) -> Vec<B> {
    let mut v = vec![b(0), max.clone(), b(1)];
    for c in vec![max / 2u32, p2(LB) - 1u32, p2(LB), max - (max.min(&b(1))), p2(2 * LB) - 1u32, p2(2 * LB), p2(LB) + 1u32, b(2), max / 3u32, p2(LB) * b(3) + 1u32, p2(42), p2(85)] { if &c <= max && !v.contains(&c) { v.push(c); } }
    v.truncate(k); v
}
fn bounds(k: usize) -> Vec<B> {
    vec![p2(LB), p2(LB) - 1u32, b(1), p2(2 * LB) - 1u32, p2(2 * LB), b(5), p2(254) + 12345u32, p2(LB - 1), p2(3 * LB) - 1u32, p2(LB) + 1u32, b(3), p2(130), p2(3 * LB), b(2), p2(43)].into_iter().take(k).collect()
}
struct Built<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { m: Model<C>, x: Bi<C>, y: Bi<C>, outs: Vec<Bi<C>>, ord: Option<OrderingTarget<C::ScalarField>> }
fn build<C: Hx>(op: Op, mx: &B, my: &B) -> Built<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut bd = CircuitBuilder::<C>::new(128);
    let x = bd.add_virtual_bigint_target(mx, true);
    let y = bd.add_virtual_bigint_target(my, true);
    let mut ord = None;
    let outs = match op {
        Op::Add => vec![bd.bigint_add(&x, &y)],
        Op::Mul => vec![bd.bigint_mul(&x, &y)],
        Op::Cmp => { ord = Some(bd.bigint_cmp(&x, &y)); vec![] }
        Op::Div => { let (d, r) = bd.bigint_div_rem(&x, &y); vec![d, r] }
        Op::Many => vec![bd.bigint_add_many(&[x.clone()]), bd.bigint_add_many(&[x.clone(), y.clone(), x.clone(), x.clone(), y.clone()])],
    };
    let mut m = Model::new(bd.build());
    for t in x.limbs.iter().chain(&y.limbs).chain(outs.iter().flat_map(|o| &o.limbs)) { m.cls(*t); }
    if let Some(o) = &ord { m.cls(o.lt); m.cls(o.eq); m.cls(o.gt); }
    Built { m, x, y, outs, ord }
}
fn want(op: Op, x: &B, y: &B) -> Vec<B> {
    match op { Op::Add => vec![x + y], Op::Mul => vec![x * y], Op::Div => vec![x / y, x % y], Op::Many => vec![x.clone(), x * 3u32 + y * 2u32], Op::Cmp => vec![b((x < y) as u64), b((x == y) as u64), b((x > y) as u64)] }
}
impl<C: Hx> Built<C> where C::BaseField: Fx, C::ScalarField: Fx {
    fn result(&self, s: &St<C::ScalarField>) -> Vec<B> {
        match &self.ord { Some(o) => vec![o.lt, o.eq, o.gt].into_iter().map(|t| self.m.get(s, t).val()).collect(), None => self.outs.iter().map(|o| val(&self.m, s, o)).collect() }
    }
    fn inputs(&self, x: &B, y: &B) -> Vec<(Tg<C>, C::ScalarField)> { self.x.limbs.iter().cloned().zip(limbs(x, self.x.limbs.len())).chain(self.y.limbs.iter().cloned().zip(limbs(y, self.y.limbs.len()))).map(|(t, v)| (t, C::ScalarField::of(&v))).collect() }
}
fn operation<C: Hx>(ctx: &'static Ctx, op: Op, mx: B, my: B, nv: usize, deep: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    if op == Op::Div && my == b(0) { return; }
    ctx.bulk(if deep { "substitutions" } else { "operations" }, &format!("{} {:?} bounds {} {}", C::CNAME, op, hx(&mx), hx(&my)), || {
        let p = C::ScalarField::order();
        let mut q = build::<C>(op, &mx, &my);
        let mut cnt = 0;
        for (i, o) in q.outs.iter().enumerate() { ensure!(op == Op::Div || o.max >= want(op, &mx, &my)[i], "declared bound {} of the result is below {}", hx(&o.max), hx(&want(op, &mx, &my)[i])); }
        for x in values(&mx, nv) { for y in values(&my, nv) {
            if op == Op::Div && y == b(0) {
                // Nothing satisfies a division by zero: neither 0 remainder x nor anything else.
                if deep && cnt > 0 {
                    let base: Fault<C::ScalarField> = q.inputs(&x, &y).into_iter().map(|(t, v)| (q.m.of(t), v)).collect();
                    for (d, r) in vec![(b(0), x.clone()), (b(0), b(0)), (b(1), x.clone()), (x.clone(), x.clone())] {
                        let mut f = base.clone();
                        for (o, v) in q.outs.iter().zip(vec![d.clone(), r.clone()]) { for (t, l) in o.limbs.iter().zip(limbs(&v, o.limbs.len())) { f.push((q.m.of(*t), C::ScalarField::of(&l))); } }
                        let s = q.m.scratch(&f); cnt += 1;
                        ensure!(q.m.violated(&s).is_some(), "{} / 0 = {} remainder {} satisfies all constraints", hx(&x), hx(&d), hx(&r));
                    }
                }
                continue;
            }
            let inp = q.inputs(&x, &y);
            let st = q.m.honest(&inp).map_err(|e| format!("{:?} of {} and {}: {}", op, hx(&x), hx(&y), e))?;
            if let Some(r) = q.m.violated(&st) { return Err(format!("{:?} of {} and {}: constraints of row {} of the generated witness do not vanish", op, hx(&x), hx(&y), r)); }
            let w = want(op, &x, &y);
            let show = |v: &Vec<B>| v.iter().map(hx).collect::<Vec<_>>().join(", ");
            let got = q.result(&st);
            ensure!(got == w, "{:?} of {} and {}: got {}, expected {}", op, hx(&x), hx(&y), show(&got), show(&w));
            for o in &q.outs { for t in &o.limbs { ensure!(q.m.get(&st, *t).val() < p2(LB), "limb above {} bits", LB); } }
            cnt += 1;
            let ins: BTreeSet<usize> = inp.iter().map(|(t, _)| q.m.of(*t)).collect();
            let mut seen = |t: &St<C::ScalarField>, what: &dyn Fn() -> String| -> R {
                let g = q.result(t);
                for o in &q.outs { for (i, l) in o.limbs.iter().enumerate() { ensure!(q.m.get(t, *l).val() < p2(LB), "{:?} of {} and {}: a satisfying assignment has limb {} = {} in its result ({})", op, hx(&x), hx(&y), i, hx(&q.m.get(t, *l).val()), what()); } }
                ensure!(g == w, "{:?} of {} and {}: another satisfying assignment gives {} instead of {} ({})", op, hx(&x), hx(&y), show(&g), show(&w), what()); Ok(())
            };
            // Alternative quotients and remainders: all that agree with the dividend up to a multiple of a limb power or of the field order, or break the remainder's range.
            if op == Op::Div {
                let cls = |o: &Bi<C>, v: &B| -> Option<Fault<C::ScalarField>> { if v.bits() as u32 > LB * o.limbs.len() as u32 { return None; } Some(o.limbs.iter().zip(limbs(v, o.limbs.len())).map(|(t, l)| (q.m.of(*t), C::ScalarField::of(&l))).collect()) };
                let (d, r) = (&w[0], &w[1]);
                let mut alt: Vec<(B, B)> = vec![(b(0), x.clone()), (d + 1u32, r.clone()), (d.clone(), r + 1u32), (b(0), b(0))];
                if d > &b(0) { alt.push((d - 1u32, r + &y)); }
                if r > &b(0) { alt.push((d.clone(), r - 1u32)); alt.push((d + 1u32, b(0))); }
                for k in 1..4u32 { for l in 1..8u32 { let v = &x + p2(LB * l) * k; alt.push((&v / &y, &v % &y)); } let v = &x + &p * k; alt.push((&v / &y, &v % &y)); let v = &x + (&p * k << LB); alt.push((&v / &y, &v % &y)); }
                // Remainder wrapped below zero within its limbs.
                for o in vec![q.outs[1].limbs.len()] { let m = p2(LB * o as u32); if &(&y - r) < &m { alt.push((d + 1u32, &m + r - &y)); } }
                let owner: Vec<usize> = (0..q.m.outs.len()).filter(|g| q.m.outs[*g].iter().any(|(_, c)| q.outs.iter().any(|o| o.limbs.iter().any(|t| q.m.of(*t) == *c))) && q.m.is_hint(*g)).collect();
                for (a, c) in alt { if let (Some(mut f), Some(g)) = (cls(&q.outs[0], &a), cls(&q.outs[1], &c)) {
                    f.extend(g);
                    let f: Fault<C::ScalarField> = f.into_iter().filter(|(c, v)| st[*c] != Some(*v)).collect();
                    if f.is_empty() { continue; }
                    for fz in vec![false, true] { cnt += 1; if let Some(t) = q.m.fault(&st, &owner, &f, &ins, fz) { seen(&t, &|| format!("quotient {} remainder {}", hx(&a), hx(&c)))?; } }
                } }
            }
            if deep { cnt += q.m.explore(&st, &ins, &[C::ScalarField::of(&p2(LB)), -C::ScalarField::of(&p2(LB))], &[p2(LB), b(4)], false, &mut seen)?; }
        } }
        // A limb that is not in its range.
        if deep {
            let top = |m: &B, i: usize| -> B { let bits = (m.bits() as u32 - LB * i as u32).min(LB); p2((bits + 1) / 2 * 2) };
            for (o, mxx) in vec![(&q.x, &mx), (&q.y, &my)] { for i in 0..o.limbs.len() { for bad in vec![top(mxx, i), p2(LB), p2(98), &p - 1u32, generic::<C::ScalarField>(5).val()] {
                let z = q.inputs(&b(0), &b(0));
                let f: Fault<C::ScalarField> = z.iter().map(|(t, v)| (q.m.of(*t), if *t == o.limbs[i] { C::ScalarField::of(&bad) } else { *v })).collect();
                let s = q.m.scratch(&f); cnt += 1;
                ensure!(q.m.violated(&s).is_some(), "limb {} = {} of a target with bound {} satisfies all constraints", i, hx(&bad), hx(mxx));
                // The same with its decomposition bent: all weight in one digit, digits beyond base 4.
                let hints: Vec<usize> = (0..q.m.outs.len()).filter(|g| q.m.is_hint(*g)).collect();
                let c = q.m.of(o.limbs[i]);
                for g in hints { if q.m.reads(g) == vec![c] && q.m.outs[g].len() > 3 {
                    let os: Vec<usize> = q.m.outs[g].iter().map(|x| x.1).collect();
                    for k in vec![0, os.len() / 2, os.len() - 1] {
                        let mut h = f.clone();
                        let w = inv(&pw(&b(4), &b(k as u64), &p), &p);
                        for (j, d) in os.iter().enumerate() { h.push((*d, if j == k { C::ScalarField::of(&mul(&bad, &w, &p)) } else { C::ScalarField::ZERO })); }
                        let s = q.m.scratch(&h); cnt += 1;
                        ensure!(q.m.violated(&s).is_some(), "limb {} = {} of a target with bound {} satisfies all constraints when digit {} takes all its weight", i, hx(&bad), hx(mxx), k);
                    }
                } }
            } } }
        }
        Ok(cnt)
    });
}
/// Copies, constants, orderings and their accessors.
fn misc<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("misc", &format!("{} constants and copies", C::CNAME), || {
        let mut cnt = 0;
        let vals = vec![b(0), b(1), p2(LB) - 1u32, p2(LB), p2(2 * LB) + 5u32, p2(300) - 1u32];
        for v in &vals {
            let mut bd = CircuitBuilder::<C>::new(128);
            let k = bd.constant_bigint(v);
            ensure!(k.max >= *v, "bound of a constant");
            let y = bd.add_virtual_bigint_target(&p2(3 * LB), true);
            let z = bd.add_virtual_bigint_target(&p2(LB), true);
            bd.copy_bigint(&k, &y);
            let y2 = bd.add_virtual_bigint_target(&p2(3 * LB), true);
            bd.copy_bigint(&y2, &k);
            if *v <= p2(LB) { bd.copy_bigint(&z, &k); }
            let mut m = Model::<C>::new(bd.build());
            for t in k.limbs.iter().chain(&y.limbs).chain(&y2.limbs).chain(&z.limbs) { m.cls(*t); }
            let mut inp: Vec<(Tg<C>, C::ScalarField)> = vec![];
            if v.bits() as u32 > 3 * LB + 1 { continue; }
            for (t, l) in y.limbs.iter().zip(limbs(v, y.limbs.len())).chain(y2.limbs.iter().zip(limbs(v, y2.limbs.len()))) { inp.push((*t, C::ScalarField::of(&l))); }
            if *v > p2(LB) { for t in &z.limbs { inp.push((*t, C::ScalarField::ZERO)); } }
            let s = m.honest(&inp)?;
            if let Some(r) = m.violated(&s) { return Err(format!("copy of constant {}: row {}", hx(v), r)); }
            ensure!(val(&m, &s, &k) == *v && val(&m, &s, &y) == *v, "constant {} and its copy read {} and {}", hx(v), hx(&val(&m, &s, &k)), hx(&val(&m, &s, &y)));
            if *v <= p2(LB) { ensure!(val(&m, &s, &z) == *v, "shorter copy of {} reads {}", hx(v), hx(&val(&m, &s, &z))); }
            cnt += 1;
            // Every limb of one side is tied to the other, also those the shorter one lacks.
            for t in y.limbs.iter().chain(&y2.limbs) { if k.limbs.iter().all(|l| m.of(*l) != m.of(*t)) {
                ensure!(m.get(&s, *t).is_zero(), "limb beyond the copied constant"); let f: Fault<C::ScalarField> = inp.iter().map(|(x, v)| (m.of(*x), if m.of(*x) == m.of(*t) { <C::ScalarField as Field>::ONE } else { *v })).collect(); let u = m.scratch(&f);
                ensure!(m.violated(&u).is_some(), "limbs beyond those of the copied constant {} are not constrained", hx(v)); cnt += 1;
            } }
            // Accessors of witness values.
            let mut w = PartialWitness::<C::ScalarField>::new();
            let t = BigIntTarget { limbs: (0..4).map(|i| Target::VirtualTarget(VirtualTarget { index: i })).collect(), max: p2(344) };
            w.set_bigint_target(&t, v);
            ensure!(w.get_bigint_target(&t) == *v, "bigint target set to {} reads {}", hx(v), hx(&w.get_bigint_target(&t)));
            for (i, l) in t.limbs.iter().enumerate() { ensure!(w.get_target(*l).val() == limbs(v, 4)[i], "limb {} of {}", i, hx(v)); }
            let nb = BigIntTarget::<C::ScalarField>::new_unbounded(t.limbs.clone());
            ensure!(nb.max == p2(344) - 1u32 && BigIntTarget::<C::ScalarField>::zero().num_limbs() == 0, "unbounded bound");
            for i in 0..4 { ensure!(nb.get_bounded_limb(i).max == p2(LB) - 1u32 && nb.get_limb(i) == t.limbs[i], "limb bound"); let bb = BigIntTarget::new_bounded(t.limbs.clone(), v.clone()); ensure!(bb.get_bounded_limb(i).max == (v >> (LB * i as u32)).min(p2(LB) - 1u32), "limb bound"); cnt += 1; }
        }
        Ok(cnt)
    });
    ctx.bulk("misc", &format!("{} orderings", C::CNAME), || {
        use std::cmp::Ordering::*;
        let mut cnt = 0;
        for (o, v) in vec![(Less, [1u64, 0, 0]), (Equal, [0, 1, 0]), (Greater, [0, 0, 1])] {
            let mut bd = CircuitBuilder::<C>::new(128);
            let k = bd.constant_ordering(o);
            let one = match o { Less => bd.ordering_lt(), Equal => bd.ordering_eq(), Greater => bd.ordering_gt() };
            let c = bd.build();
            let w = c.generate_partial_witness(PartialWitness::new());
            for t in vec![k, one] { ensure!(w.get_ordering_target(t) == o, "constant ordering"); for (t, x) in vec![t.lt, t.eq, t.gt].into_iter().zip(v.to_vec()) { ensure!(w.get_target(t).val() == b(x), "constant ordering value"); } cnt += 1; }
        }
        // The validity assertion accepts the three unit vectors only.
        let mut bd = CircuitBuilder::<C>::new(128);
        let t = bd.add_virtual_ordering_target(true);
        let mut m = Model::<C>::new(bd.build());
        let ts = vec![t.lt, t.eq, t.gt]; for x in &ts { m.cls(*x); }
        let p = C::ScalarField::order();
        let pool = vec![b(0), b(1), b(2), &p - 1u32, (&p + 1u32) / 2u32, generic::<C::ScalarField>(1).val()];
        for x in &pool { for y in &pool { for z in &pool {
            let f: Fault<C::ScalarField> = ts.iter().zip(vec![x, y, z]).map(|(t, v)| (m.of(*t), C::ScalarField::of(v))).collect();
            let ok = vec![x, y, z].iter().all(|v| **v < b(2)) && x + y + z == b(1);
            let s = m.scratch(&f);
            ensure!(m.violated(&s).is_none() == ok, "ordering ({}, {}, {}) is {}", hx(x), hx(y), hx(z), if ok { "rejected" } else { "accepted" });
            cnt += 1;
        } } }
        Ok(cnt)
    });
}
/// Foreign-field constants, sums and products, and programs of them.
fn foreign<C: Hx, FF: Fx>(ctx: &'static Ctx, deep: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let q = FF::order();
    let vals: Vec<B> = vec![b(0), &q - 1u32, b(1), generic::<FF>(1).val(), p2(LB) - 1u32, p2(2 * LB), (&q - 1u32) / 2u32, &q - p2(86)];
    let n = if deep { ctx.tier(2, 5) } else { ctx.tier(3, 8) };
    for mode in 0..4usize {
        if deep && mode > 1 { continue; }
        ctx.bulk(if deep { "foreign substitutions" } else { "foreign field" }, &format!("{} in {} program {}", FF::NAME, C::CNAME, mode), || {
            let mut cnt = 0;
            for i in 0..n { for j in 0..n {
                if (mode > 1 || deep) && i != j && j != 1 { continue; }
                if deep && !ctx.thorough && (i, j) != (mode, 1) { continue; }
                let (x, y) = (if deep { &vals[1 + i] } else { &vals[i] }, &vals[j]);
                let mut bd = CircuitBuilder::<C>::new(128);
                let (tx, ty) = (bd.constant_foreign_field(FF::of(x)), bd.constant_foreign_field(FF::of(y)));
                let (out, w) = match mode {
                    0 => (bd.foreign_field_add(&tx, &ty), add(x, y, &q)),
                    1 => (bd.foreign_field_mul(&tx, &ty), mul(x, y, &q)),
                    2 => (bd.foreign_field_add_many(&[tx.clone(), ty.clone(), ForeignFieldTarget::zero(), tx.clone(), tx.clone()]), add(&mul(x, &b(3), &q), y, &q)),
                    _ => { let s = bd.foreign_field_add(&tx, &ty); let t = bd.foreign_field_mul(&s, &tx); (bd.foreign_field_add(&t, &s), add(&mul(&add(x, y, &q), x, &q), &add(x, y, &q), &q)) }
                };
                let mut m = Model::<C>::new(bd.build());
                for t in &out.value.limbs { m.cls(*t); }
                let s = m.honest(&[]).map_err(|e| format!("{} and {}: {}", hx(x), hx(y), e))?;
                if let Some(r) = m.violated(&s) { return Err(format!("{} and {}: constraints of row {} of the generated witness do not vanish", hx(x), hx(y), r)); }
                ensure!(val(&m, &s, &out.value) == w, "{} and {}: got {}, expected {}", hx(x), hx(y), hx(&val(&m, &s, &out.value)), hx(&w));
                ensure!(out.value.max >= w, "bound of a foreign-field value");
                cnt += 1;
                if deep { cnt += m.explore(&s, &BTreeSet::new(), &[C::ScalarField::of(&p2(LB))], &[p2(LB), b(4)], false, &mut |t, what| {
                    for (i, l) in out.value.limbs.iter().enumerate() { ensure!(m.get(t, *l).val() < p2(LB), "{} and {}: a satisfying assignment has limb {} = {} in its result ({})", hx(x), hx(y), i, hx(&m.get(t, *l).val()), what()); }
                    ensure!(val(&m, t, &out.value) == w, "{} and {}: another satisfying assignment gives {} instead of {} ({})", hx(x), hx(y), hx(&val(&m, t, &out.value)), hx(&w), what()); Ok(())
                })?; }
            } }
            Ok(cnt)
        });
    }
}

fn main() {
    run("C14", "exploration", "distinct = one operation on given operand values under given bounds, or one substitution of generated values in its witness", |ctx| {
        let ops = vec![Op::Add, Op::Mul, Op::Cmp, Op::Div, Op::Many];
        let mut jobs: Vec<(Op, B, B, bool)> = vec![];
        let n = ctx.tier(7, 15);
        for (i, mx) in bounds(n).into_iter().enumerate() { for (j, my) in bounds(n).into_iter().enumerate() { for op in &ops {
            if *op != Op::Div && *op != Op::Mul && i > j && !ctx.thorough { continue; }
            jobs.push((*op, mx.clone(), my.clone(), false));
        } } }
        for (op, mx, my) in vec![(Op::Div, p2(LB), p2(LB) - 1u32), (Op::Div, p2(100), p2(90)), (Op::Add, p2(LB) - 1u32, p2(LB) - 1u32), (Op::Mul, p2(LB), p2(LB) - 1u32), (Op::Cmp, p2(LB) + 1u32, p2(LB) - 1u32), (Op::Div, b(5), b(5)), (Op::Many, b(5), p2(LB) - 1u32)] { jobs.insert(0, (op, mx, my, true)); }
        if ctx.thorough { for op in &ops { jobs.push((*op, p2(2 * LB) - 1u32, p2(2 * LB) - 1u32, true)); jobs.push((*op, p2(254), p2(100), true)); } }
        let jn = jobs.len();
        let jobs = std::sync::Arc::new(jobs);
        ctx.par((jn..jn + 8).chain(0..jn).collect(), move |&i| {
            if i < jn { let (op, mx, my, deep) = &jobs[i]; operation::<Tweedledee>(ctx, *op, mx.clone(), my.clone(), if *deep { ctx.tier(3, 5) } else { ctx.tier(if *op == Op::Div { 4 } else { 6 }, 12) }, *deep); return; }
            match i - jn {
                0 => foreign::<Tweedledee, TweedledeeBase>(ctx, false), 1 => foreign::<Tweedledee, Bls12377Base>(ctx, false), 2 => foreign::<Tweedledee, TweedledumBase>(ctx, false),
                3 => foreign::<Tweedledee, TweedledeeBase>(ctx, true), 4 => { foreign::<Pallas, PallasBase>(ctx, false); operation::<Pallas>(ctx, Op::Div, p2(254), p2(LB), 5, false) }
                5 => misc::<Tweedledee>(ctx), 6 => { misc::<Vesta>(ctx); operation::<Vesta>(ctx, Op::Div, p2(254), p2(LB), 5, false); operation::<Vesta>(ctx, Op::Mul, p2(254), p2(254), 5, false) }
                _ => { operation::<Tweedledum>(ctx, Op::Cmp, p2(254), p2(LB), 5, false); operation::<Tweedledum>(ctx, Op::Div, p2(254), p2(254), 5, false) }
            }
        });
    })
}
