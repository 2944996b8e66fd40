//! C15: in-circuit curve operations: exact on every operand pair in the bound, no other satisfying result, invalid points refused.
use mc::alpha::*;
use mc::circ::*;
use mc::model::*;
use mc::refm::*;
use mc::*;
use plonky::*;
use std::collections::BTreeSet;

type S<C> = <C as Curve>::ScalarField;
type Tg<C> = Target<S<C>>;
type Pg<C> = AffinePointTarget<<C as Hx>::Inner>;

fn xy(q: &Pt) -> String { match q { None => "identity".into(), Some((x, y)) => format!("({}, {})", x.to_str_radix(16), y.to_str_radix(16)) } }
/// Multiples of the generator around zero, generic ones, images under the endomorphism and points with x = 0 if there are any.
fn points<C: Hx>(few: bool) -> Vec<Pt> where C::BaseField: Fx, C::ScalarField: Fx {
    let (c, g) = inner_crv::<C>();
    let n = C::BaseField::order();
    let mut ks = vec![b(1), b(2), b(3), &n - 1u32, &n - 2u32, b(4), (&n + 1u32) / 2u32];
    if !few { ks.extend(vec![b(5), &n - 3u32, generic::<C::BaseField>(3).val() % &n, b(1) << 200, b(1) << 254]); }
    let mut v: Vec<Pt> = ks.iter().map(|k| c.mul(&(k % &n), &g)).collect();
    let z = C::Inner::ZETA.val();
    for i in 0..2 { let q = v[i].clone().map(|(x, y)| (mul(&x, &z, &c.p), y)); v.push(q); }
    let f = C::ScalarField::of(&c.b);
    if let Some(r) = f.square_root() { v.push(Some((b(0), r.val()))); v.push(Some((b(0), neg(&r.val(), &c.p)))); }
    for q in &v { assert!(c.on(q)); }
    v
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Add, Dbl, Sub, Neg, AddTwice, SelfSub, Const, Copy }
use Op::*;
fn arity(o: Op) -> usize { match o { Dbl | Neg | Const => 1, _ => 2 } }
fn pt<C: Hx>(q: &Pt) -> AffinePoint<C::Inner> where C::BaseField: Fx, C::ScalarField: Fx { let (x, y) = q.clone().unwrap(); AffinePoint { x: S::<C>::of(&x), y: S::<C>::of(&y), zero: false } }
struct Bu<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { m: Model<C>, ins: Vec<Tg<C>>, out: Pg<C> }
fn konst<C: Hx>() -> Pt where C::BaseField: Fx, C::ScalarField: Fx { let (c, g) = inner_crv::<C>(); c.mul(&b(7), &g) }
fn build<C: Hx>(o: Op) -> Bu<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut bd = CircuitBuilder::<C>::new(128);
    let ps: Vec<Pg<C>> = if arity(o) == 1 { vec![bd.add_virtual_point_target::<C::Inner>()] } else { bd.add_virtual_point_targets::<C::Inner>(2) };
    let out = match o {
        Add => bd.curve_add(ps[0], ps[1]),
        Dbl => bd.curve_double(ps[0]),
        Sub => bd.curve_sub(ps[0], ps[1]),
        Neg => bd.curve_neg(ps[0]),
        AddTwice => { let t = bd.curve_add(ps[0], ps[1]); let d = bd.curve_double(t); bd.curve_add(d, ps[0]) }
        SelfSub => { let t = bd.curve_double(ps[0]); let n = bd.curve_neg(ps[1]); bd.curve_sub(t, n) }
        Const => { let k = bd.constant_affine_point(pt::<C>(&konst::<C>())); bd.curve_add(ps[0], k) }
        Copy => { let t = bd.curve_sub(ps[0], ps[1]); let q = bd.add_virtual_point_target::<C::Inner>(); bd.copy_curve(t, q); q }
    };
    let ins: Vec<Tg<C>> = ps.iter().flat_map(|p| p.to_vec()).collect();
    let mut m = Model::new(bd.build());
    for t in ins.iter().chain(&out.to_vec()) { m.cls(*t); }
    Bu { m, ins, out }
}
/// None: an exceptional case.
fn want(o: Op, c: &Crv, k: &Pt, p: &[Pt]) -> Option<Pt> {
    let ad = |p: &Pt, q: &Pt| -> Option<Pt> { if p.is_none() || q.is_none() || p.as_ref().unwrap().0 == q.as_ref().unwrap().0 { None } else { Some(c.add(p, q)) } };
    match o {
        Add => ad(&p[0], &p[1]), Dbl => Some(c.add(&p[0], &p[0])), Sub | Copy => ad(&p[0], &c.neg(&p[1])), Neg => Some(c.neg(&p[0])),
        AddTwice => ad(&p[0], &p[1]).and_then(|t| ad(&c.add(&t, &t), &p[0])),
        SelfSub => ad(&c.add(&p[0], &p[0]), &p[1]),
        Const => ad(&p[0], k),
    }
}
fn small<C: Hx>(ctx: &'static Ctx, few: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let mut items = vec![];
    let n = points::<C>(few).len();
    for o in vec![Add, Dbl, Sub, Neg, AddTwice, SelfSub, Const, Copy] { if arity(o) == 1 { items.push((o, 0)); } else { for i in 0..n { items.push((o, i)); } } }
    ctx.par(items, move |&(o, i)| { ctx.bulk("operations", &format!("{} {:?} first operand {}", C::CNAME, o, i), || {
        let (c, _) = inner_crv::<C>();
        let k = konst::<C>();
        let pts = points::<C>(few);
        let mut u = build::<C>(o);
        let mut cnt = 0;
        let mut nc = 0;
        let mut tuples: Vec<Vec<Pt>> = if arity(o) == 1 { pts.iter().map(|p| vec![p.clone()]).collect() } else { pts.iter().map(|q| vec![pts[i].clone(), q.clone()]).collect() };
        if o == Const { tuples.push(vec![k.clone()]); tuples.push(vec![c.neg(&k)]); }
        tuples.sort_by_key(|t| want(o, &c, &k, t).is_none());
        for t in tuples {
            let inp: Vec<(Tg<C>, S<C>)> = u.ins.iter().cloned().zip(t.iter().flat_map(|q| { let (x, y) = q.clone().unwrap(); vec![x, y] }).map(|v| S::<C>::of(&v))).collect();
            let ins: BTreeSet<usize> = u.ins.iter().map(|t| u.m.of(*t)).collect();
            let show = || t.iter().map(xy).collect::<Vec<_>>().join(" and ");
            let extra: Vec<S<C>> = inp.iter().map(|x| x.1).collect();
            match want(o, &c, &k, &t) {
                Some(w) => {
                    let st = u.m.honest(&inp).map_err(|e| format!("{:?} of {}: {}", o, show(), e))?;
                    if let Some(r) = u.m.violated(&st) { return Err(format!("{:?} of {}: constraints of row {} of the generated witness do not vanish", o, show(), r)); }
                    let m = &u.m;
                    let out = u.out;
                    let got = |s: &St<S<C>>| -> Pt { Some((m.get(s, out.x).val(), m.get(s, out.y).val())) };
                    ensure!(got(&st) == w, "{:?} of {}: got {}, expected {}", o, show(), xy(&got(&st)), xy(&w));
                    cnt += 1;
                    cnt += m.explore(&st, &ins, &extra, &[], true, &mut |s, what| { ensure!(got(s) == w, "{:?} of {}: another satisfying assignment gives {} instead of {} ({})", o, show(), xy(&got(s)), xy(&w), what()); Ok(()) })?;
                    if nc < ctx.tier(1, 1000) && (i % 3 == 0 || ctx.thorough) { nc += 1; cnt += m.explore_constants(&st, &ins, &mut |s, what| { ensure!(got(s) == w, "{:?} of {}: another satisfying assignment gives {} instead of {} ({})", o, show(), xy(&got(s)), xy(&w), what()); Ok(()) })?; }
                    // Claimed results: the other points of the alphabet, the operands, the negated result.
                    for q in pts.iter().chain(&[c.neg(&w)]) { if *q == w { continue; } let (x, y) = q.clone().unwrap();
                        if ins.contains(&m.of(out.x)) && m.get(&st, out.x).val() != x { continue; }
                        if ins.contains(&m.of(out.y)) && m.get(&st, out.y).val() != y { continue; }
                        let mut f: Fault<S<C>> = inp.iter().map(|(t, v)| (m.of(*t), *v)).collect();
                        f.push((m.of(out.x), S::<C>::of(&x))); f.push((m.of(out.y), S::<C>::of(&y)));
                        cnt += 1;
                        let s = m.scratch(&f);
                        ensure!(m.violated(&s).is_some(), "{:?} of {}: result {} instead of {} satisfies all constraints", o, show(), xy(q), xy(&w)); }
                }
                None => {
                    // Exceptional: nothing satisfies it.
                    let m = &u.m;
                    let base: Fault<S<C>> = inp.iter().map(|(t, v)| (m.of(*t), *v)).collect();
                    cnt += 1;
                    ensure!(m.violated(&m.scratch(&base)).is_some(), "{:?} of {} is exceptional, but satisfiable", o, show());
                    let vals: Vec<S<C>> = vec![S::<C>::ZERO, <S<C> as Field>::ONE, extra[0], extra[1], -extra[1]];
                    let gens: Vec<usize> = (0..m.outs.len()).filter(|g| !m.outs[*g].is_empty() && !m.reads(*g).is_empty()).collect();
                    for g in gens { for (_, cl) in &m.outs[g] { for v in &vals { if ins.contains(cl) { continue; } let mut f = base.clone(); f.push((*cl, *v)); cnt += 1; ensure!(m.violated(&m.scratch(&f)).is_some(), "{:?} of {} is exceptional, but satisfiable (class {} := {})", o, show(), cl, v.val()); } } }
                    let mut f = base.clone();
                    for (cx, q) in pts.iter().enumerate() { let (x, y) = q.clone().unwrap(); f.truncate(base.len()); f.push((m.of(u.out.x), S::<C>::of(&x))); f.push((m.of(u.out.y), S::<C>::of(&y))); if ins.contains(&f[base.len()].0) || ins.contains(&f[base.len() + 1].0) { continue; } cnt += 1; ensure!(m.violated(&m.scratch(&f)).is_some(), "{:?} of {} is exceptional, but satisfiable with point {}", o, show(), cx); }
                }
            }
        }
        Ok(cnt)
    }); });
}
/// The validity assertion on a grid of coordinates, and the constructors.
fn valid<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("validity assertion", C::CNAME, || {
        let (c, _) = inner_crv::<C>();
        let mut bd = CircuitBuilder::<C>::new(128);
        let q = bd.add_virtual_point_target::<C::Inner>();
        bd.curve_assert_valid(q);
        ensure!(q.to_vec() == vec![q.x, q.y], "coordinates are listed in another order");
        let mut m = Model::<C>::new(bd.build());
        m.cls(q.x); m.cls(q.y);
        let pts = points::<C>(false);
        let mut cs: Vec<B> = vec![b(0), b(1), &c.p - 1u32, b(2), c.b.clone(), generic::<S<C>>(5).val()];
        for p in pts.iter().take(5) { let (x, y) = p.clone().unwrap(); cs.push(x); cs.push(neg(&y, &c.p)); cs.push(y); }
        let mut list: Vec<(B, B)> = pts.iter().map(|p| p.clone().unwrap()).collect(); // points of the curve first: they name the targets
        for x in &cs { for y in &cs { if !list.contains(&(x.clone(), y.clone())) { list.push((x.clone(), y.clone())); } } }
        for p in &pts { let (x, y) = p.clone().unwrap(); for d in 1..4u32 { list.push(((&x + d) % &c.p, y.clone())); list.push((x.clone(), (&y + d) % &c.p)); } }
        let mut cnt = 0;
        for (x, y) in list {
            let on = c.on(&Some((x.clone(), y.clone())));
            let inp = vec![(q.x, S::<C>::of(&x)), (q.y, S::<C>::of(&y))];
            let base: Fault<S<C>> = inp.iter().map(|(t, v)| (m.of(*t), *v)).collect();
            let what = || xy(&Some((x.clone(), y.clone())));
            cnt += 1;
            if on {
                let st = m.honest(&inp).map_err(|e| format!("{} is on the curve: {}", what(), e))?;
                ensure!(m.violated(&st).is_none(), "{} is on the curve, but refused", what());
            } else {
                if let Some(Ok(st)) = silent(|| m.honest(&inp)) { ensure!(m.violated(&st).is_some(), "{} is not on the curve, but accepted", what()); }
                ensure!(m.violated(&m.scratch(&base)).is_some(), "{} is not on the curve, but accepted", what());
                if cnt % 8 != 0 { continue; }
                for g in 0..m.outs.len() { if m.reads(g).is_empty() { continue; } for (_, cl) in &m.outs[g] { for v in vec![b(0), b(1), mul(&y, &y, &c.p), mul(&x, &x, &c.p), (&mul(&mul(&x, &x, &c.p), &x, &c.p) + &c.b) % &c.p] {
                    if base.iter().any(|z| z.0 == *cl) { continue; }
                    let mut f = base.clone(); f.push((*cl, S::<C>::of(&v))); cnt += 1;
                    ensure!(m.violated(&m.scratch(&f)).is_some(), "{} is not on the curve, but accepted (class {} := {})", what(), cl, v);
                } } }
            }
        }
        // A constant point is the point, and the identity is refused.
        ensure!(catch(|| { let mut bd = CircuitBuilder::<C>::new(128); bd.constant_affine_point(AffinePoint::<C::Inner>::ZERO) }).is_err(), "the identity became a constant point");
        let mut bd = CircuitBuilder::<C>::new(128);
        let ts: Vec<Pg<C>> = pts.iter().map(|p| bd.constant_affine_point(pt::<C>(p))).collect();
        for t in &ts { bd.curve_assert_valid(*t); }
        let cc = bd.build();
        let w = cc.generate_partial_witness(PartialWitness::new());
        for (t, p) in ts.iter().zip(&pts) { ensure!(Some((w.get_target(t.x).val(), w.get_target(t.y).val())) == *p, "constant point {}", xy(p)); let q = w.get_point_target::<C::Inner>(*t); ensure!(!q.zero && Some((q.x.val(), q.y.val())) == *p, "point read from the witness"); cnt += 1; }
        satisfied::<C, C::Inner>(&cc, &wit(&Witness::from_partial(&w, cc.degree()), cc.degree()))?;
        Ok(cnt)
    });
}
/// Multiplication and multi-multiplication by scalars of the circuit's field.
fn mults<C: Hx>(ctx: &'static Ctx, parts: usize, sets: usize, explore: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let lists: Vec<usize> = (0..if explore { 3 } else { 1 }).collect();
    ctx.par(lists, move |&job| { ctx.bulk("multiplication", &format!("{} {} parts, job {}", C::CNAME, parts, job), || {
        let (c, g) = inner_crv::<C>();
        let n = C::BaseField::order();
        let top = b(1) << 254u32;
        let mut bd = CircuitBuilder::<C>::new(128);
        let ps = bd.add_virtual_point_targets::<C::Inner>(parts);
        let ss: Vec<Tg<C>> = bd.add_virtual_targets(parts);
        let out = if parts == 1 { bd.curve_mul(CurveMulOp { scalar: ss[0], point: ps[0] }) } else { bd.curve_msm(&ps.iter().zip(&ss).map(|(p, s)| CurveMulOp { scalar: *s, point: *p }).collect::<Vec<_>>()) };
        let ins: Vec<Tg<C>> = ps.iter().flat_map(|p| p.to_vec()).chain(ss.clone()).collect();
        let mut m = Model::new(bd.build());
        for t in ins.iter().chain(&out.to_vec()) { m.cls(*t); }
        let ks: Vec<B> = vec![b(1), b(2), b(3), &top - 1u32, (b(1) << 253u32), b(5), (b(1) << 253u32) - 1u32, b(1) << 127u32, generic::<S<C>>(1).val() % &top, (&top - 1u32) / 3u32, &n - 1u32, &n + 1u32, b(1) << 64u32, b(0)];
        let pts = points::<C>(false);
        let mut cnt = 0;
        let mut left = sets;
        for i in 0..ks.len() * 3 {
            let k: Vec<B> = (0..parts).map(|j| ks[(i + j * (1 + i / ks.len() * 4)) % ks.len()].clone()).collect();
            let p: Vec<Pt> = (0..parts).map(|j| pts[(i + j * (i / ks.len())) % pts.len()].clone()).collect();
            if k.iter().any(|x| x >= &top) { continue; }
            let w = k.iter().zip(&p).fold(None, |a, (k, p)| c.add(&a, &c.mul(&(k % &n), p)));
            if w.is_none() { continue; }
            // Small multiples of the generator only could collide with the generic filler with negligible probability.
            if left == 0 || i % lists_len(explore) != job { continue; }
            left -= 1;
            let inp: Vec<(Tg<C>, S<C>)> = ins.iter().cloned().zip(p.iter().flat_map(|q| { let (x, y) = q.clone().unwrap(); vec![x, y] }).chain(k.clone()).map(|v| S::<C>::of(&v))).collect();
            let show = || format!("scalars {:?}, points {}", k.iter().map(|x| x.to_str_radix(16)).collect::<Vec<_>>(), p.iter().map(xy).collect::<Vec<_>>().join(" and "));
            let st = m.honest(&inp).map_err(|e| format!("{}: {}", show(), e))?;
            if let Some(r) = m.violated(&st) { return Err(format!("{}: constraints of row {} of the generated witness do not vanish", show(), r)); }
            let got = |m: &Model<C>, s: &St<S<C>>| -> Pt { Some((m.get(s, out.x).val(), m.get(s, out.y).val())) };
            ensure!(got(&m, &st) == w, "{}: got {}, expected {}", show(), xy(&got(&m, &st)), xy(&w));
            cnt += 1;
            if explore && left % 2 == 0 {
                let is: BTreeSet<usize> = ins.iter().map(|t| m.of(*t)).collect();
                cnt += m.explore(&st, &is, &[], &[b(2)], false, &mut |s, what| { ensure!(got(&m, s) == w, "{}: another satisfying assignment gives {} instead of {} ({})", show(), xy(&got(&m, s)), xy(&w), what()); Ok(()) })?;
            }
        }
        // Scalars whose top bit is set have no satisfying assignment (documented), rather than a wrong one.
        let big = &top + 5u32;
        if C::ScalarField::order() > big && job == 0 {
            let mut f: Fault<S<C>> = vec![];
            for (t, q) in ps.iter().zip(&pts) { let (x, y) = q.clone().unwrap(); f.push((m.of(t.x), S::<C>::of(&x))); f.push((m.of(t.y), S::<C>::of(&y))); }
            for s in &ss { f.push((m.of(*s), S::<C>::of(&big))); }
            ensure!(m.violated(&m.scratch(&f)).is_some(), "a scalar of 255 bits is satisfiable"); cnt += 1;
        }
        let _ = g;
        Ok(cnt)
    }); });
}
fn lists_len(explore: bool) -> usize { if explore { 3 } else { 1 } }
fn main() {
    run("C15", "exploration", "distinct = one operation on given operands, or one substitution of generated values in its witness", |ctx| {
        valid::<Tweedledee>(ctx); valid::<Tweedledum>(ctx); valid::<Pallas>(ctx); valid::<Vesta>(ctx);
        small::<Tweedledee>(ctx, !ctx.thorough);
        if ctx.thorough { small::<Tweedledum>(ctx, false); small::<Pallas>(ctx, false); small::<Vesta>(ctx, false); }
        else { ctx.par(vec![0, 1, 2], move |i| match i { 0 => quick::<Tweedledum>(ctx), 1 => quick::<Pallas>(ctx), _ => quick::<Vesta>(ctx) }); }
        mults::<Tweedledee>(ctx, 1, ctx.tier(4, 100), true);
        ctx.par(vec![0, 1, 2, 3], move |i| match i { 0 => mults::<Pallas>(ctx, 1, ctx.tier(8, 100), ctx.thorough), 1 => mults::<Tweedledee>(ctx, 2, ctx.tier(8, 100), ctx.thorough), 2 => mults::<Tweedledum>(ctx, 2, ctx.tier(8, 100), ctx.thorough), _ => mults::<Vesta>(ctx, 3, ctx.tier(8, 100), ctx.thorough) });
    });
}
fn quick<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    // One pass per operation with the first two operands.
    ctx.bulk("operations on the other curves", C::CNAME, || {
        let (c, _) = inner_crv::<C>();
        let k = konst::<C>();
        let pts = points::<C>(true);
        let mut cnt = 0;
        for o in vec![Add, Dbl, Sub, AddTwice, SelfSub, Const] {
            let mut u = build::<C>(o);
            for (i, p) in pts.iter().enumerate() { for q in &pts[i + 1..] {
                let t = if arity(o) == 1 { vec![p.clone()] } else { vec![p.clone(), q.clone()] };
                let w = match want(o, &c, &k, &t) { Some(w) => w, None => continue };
                let inp: Vec<(Tg<C>, S<C>)> = u.ins.iter().cloned().zip(t.iter().flat_map(|q| { let (x, y) = q.clone().unwrap(); vec![x, y] }).map(|v| S::<C>::of(&v))).collect();
                let st = u.m.honest(&inp)?;
                let got = Some((u.m.get(&st, u.out.x).val(), u.m.get(&st, u.out.y).val()));
                ensure!(u.m.violated(&st).is_none() && got == w, "{:?} of {}: got {}, expected {}", o, t.iter().map(xy).collect::<Vec<_>>().join(" and "), xy(&got), xy(&w));
                cnt += 1;
                if arity(o) == 1 { break; }
            } }
        }
        Ok(cnt)
    });
}
