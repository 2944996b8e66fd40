//! C13: arithmetic gadgets of the circuit builder compute and constrain their field-level function.
use mc::alpha::*;
use mc::circ::*;
use mc::model::*;
use mc::refm::*;
use mc::*;
use plonky::*;
use std::collections::BTreeSet;

type Tg<C> = Target<<C as Curve>::ScalarField>;
/// A gadget: how to call it and what it stands for. None: no satisfying assignment.
struct Spec<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx {
    name: String,
    ar: usize,
    build: Box<dyn Fn(&mut CircuitBuilder<C>, &[Tg<C>]) -> Vec<Tg<C>> + Send + Sync>,
    want: Box<dyn Fn(&[B], &B) -> Want + Send + Sync>,
    dom: Vec<Vec<B>>,   // per operand; empty: the general pool
    outs: usize,        // how many outputs
}
enum Want { Out(Vec<B>), Unsat, Skip }
use Want::*;

fn ge<F: Fx>(i: u64) -> B { generic::<F>(i).val() }
fn one(x: B) -> Want { Out(vec![x]) }
fn flag(x: bool) -> Want { one(b(x as u64)) }
fn holds(x: bool) -> Want { if x { Out(vec![]) } else { Unsat } }

fn specs<C: Hx>() -> Vec<Spec<C>> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut v: Vec<Spec<C>> = vec![];
    macro_rules! s { ($n:expr, $a:expr, $o:expr, $dom:expr, $b:expr, $w:expr) => { v.push(Spec { name: $n.to_string(), ar: $a, build: Box::new($b), want: Box::new($w), dom: $dom, outs: $o }); } }
    let bits = || vec![b(0), b(1)];
    let pool = vec![];
    s!("add", 2, 1, pool.clone(), |c, t| vec![c.add(t[0], t[1])], |x, p| one(add(&x[0], &x[1], p)));
    s!("sub", 2, 1, pool.clone(), |c, t| vec![c.sub(t[0], t[1])], |x, p| one(sub(&x[0], &x[1], p)));
    s!("mul", 2, 1, pool.clone(), |c, t| vec![c.mul(t[0], t[1])], |x, p| one(mul(&x[0], &x[1], p)));
    s!("mul_add", 3, 1, pool.clone(), |c, t| vec![c.mul_add(t[0], t[1], t[2])], |x, p| one(add(&mul(&x[0], &x[1], p), &x[2], p)));
    s!("mul_sub", 3, 1, pool.clone(), |c, t| vec![c.mul_sub(t[0], t[1], t[2])], |x, p| one(sub(&mul(&x[0], &x[1], p), &x[2], p)));
    s!("double", 1, 1, pool.clone(), |c, t| vec![c.double(t[0])], |x, p| one(add(&x[0], &x[0], p)));
    s!("square", 1, 1, pool.clone(), |c, t| vec![c.square(t[0])], |x, p| one(mul(&x[0], &x[0], p)));
    s!("neg", 1, 1, pool.clone(), |c, t| vec![c.neg(t[0])], |x, p| one(neg(&x[0], p)));
    for n in 0..5usize {
        s!(format!("add_many of {}", n), n, 1, pool.clone(), |c, t| vec![c.add_many(t)], |x, p| one(x.iter().fold(b(0), |a, y| add(&a, y, p))));
        s!(format!("mul_many of {}", n), n, 1, pool.clone(), |c, t| vec![c.mul_many(t)], |x, p| one(x.iter().fold(b(1), |a, y| mul(&a, y, p))));
    }
    s!("inv", 1, 1, pool.clone(), |c, t| vec![c.inv(t[0])], |x, p| if x[0] == b(0) { Unsat } else { one(inv(&x[0], p)) });
    s!("div", 2, 1, pool.clone(), |c, t| vec![c.div(t[0], t[1])], |x, p| if x[1] == b(0) { Unsat } else { one(mul(&x[0], &inv(&x[1], p), p)) });
    s!("assert_nonzero", 1, 0, pool.clone(), |c, t| { c.assert_nonzero(t[0]); vec![] }, |x, _| holds(x[0] != b(0)));
    s!("assert_zero", 1, 0, pool.clone(), |c, t| { c.assert_zero(t[0]); vec![] }, |x, _| holds(x[0] == b(0)));
    s!("assert_one", 1, 0, pool.clone(), |c, t| { c.assert_one(t[0]); vec![] }, |x, _| holds(x[0] == b(1)));
    s!("assert_binary", 1, 0, pool.clone(), |c, t| { c.assert_binary(t[0]); vec![] }, |x, _| holds(x[0] < b(2)));
    s!("is_zero", 1, 1, pool.clone(), |c, t| vec![c.is_zero(t[0])], |x, _| flag(x[0] == b(0)));
    s!("is_nonzero", 1, 1, pool.clone(), |c, t| vec![c.is_nonzero(t[0])], |x, _| flag(x[0] != b(0)));
    s!("is_equal", 2, 1, pool.clone(), |c, t| vec![c.is_equal(t[0], t[1])], |x, _| flag(x[0] == x[1]));
    s!("is_not_equal", 2, 1, pool.clone(), |c, t| vec![c.is_not_equal(t[0], t[1])], |x, _| flag(x[0] != x[1]));
    s!("select", 3, 1, vec![bits(), vec![], vec![]], |c, t| vec![c.select(t[0], t[1], t[2])], |x, _| if x[0] > b(1) { Skip } else { one(if x[0] == b(1) { x[1].clone() } else { x[2].clone() }) });
    s!("not", 1, 1, vec![bits()], |c, t| vec![c.not(t[0])], |x, _| if x[0] > b(1) { Skip } else { flag(x[0] == b(0)) });
    s!("copy", 2, 0, pool.clone(), |c, t| { c.copy(t[0], t[1]); vec![] }, |x, _| if x[0] == x[1] { holds(true) } else { Skip }); // a conflict is refused: C16
    s!("conditional_copy", 3, 0, pool.clone(), |c, t| { c.conditional_copy(t[0], t[1], t[2]); vec![] }, |x, _| holds(x[0] == b(0) || x[1] == x[2]));
    let g = ge::<C::ScalarField>(5);
    let p1 = C::ScalarField::order() - 1u32;
    for e in vec![b(0), b(1), b(2), b(3), b(4), b(5), b(255), b(1 << 32), (b(1) << 64u32) - 1u32, b(1) << 64u32, (b(1) << 64u32) + 1u32, b(1) << 128u32, &p1 - 1u32, p1.clone(), g.clone()] {
        let e2 = e.clone();
        s!(format!("exp_constant {}", e.to_str_radix(16)), 1, 1, pool.clone(), move |c, t| vec![c.exp_constant(t[0], C::ScalarField::of(&e))], move |x, p| one(if e2 == b(0) { b(1) } else { pw(&x[0], &e2, p) }));
    }
    for e in vec![0usize, 1, 2, 5, 7, 64, 1000, (1 << 40) + 3] { s!(format!("exp_constant_usize {}", e), 1, 1, pool.clone(), move |c, t| vec![c.exp_constant_usize(t[0], e)], move |x, p| one(if e == 0 { b(1) } else { pw(&x[0], &b(e as u64), p) })); }
    // Canonical square roots: the even one. Roots whose top bit is set are outside the documented domain.
    let roots: Vec<B> = vec![b(0), b(1), b(2), b(3), b(4), p1.clone(), &p1 - 1u32, (b(1) << 64u32) + 2u32, (b(1) << 253u32) + 4u32, (b(1) << 254u32) - 1u32, (b(1) << 254u32) - 2u32, ge::<C::ScalarField>(2), ge::<C::ScalarField>(3)];
    let p = C::ScalarField::order();
    let mut squares: Vec<B> = roots.iter().map(|r| mul(r, r, &p)).collect();
    squares.extend(vec![b(5), b(7), ge::<C::ScalarField>(8), ge::<C::ScalarField>(9), ge::<C::ScalarField>(10)]);
    s!("deterministic_square_root", 1, 1, vec![squares], |c, t| vec![c.deterministic_square_root(t[0])], |x, p| {
        if x[0] == b(0) { return one(b(0)); }
        if pw(&x[0], &((p - 1u32) / 2u32), p) != b(1) { return Unsat; }
        let r = C::ScalarField::of(&x[0]).square_root().unwrap().val();
        assert!(mul(&r, &r, p) == x[0]);
        let r = if &r % 2u32 == b(0) { r } else { p - r };
        if r.bits() > 254 { Skip } else { one(r) }
    });
    for n in 1..10usize {
        let dom = (0..n).map(|i| if i == n / 2 || i == n - 1 { vec![b(0), b(3), b(4), p1.clone(), ge::<C::ScalarField>(1)] } else { vec![b((i % 4) as u64)] }).collect();
        s!(format!("assert_all_base_4 of {}", n), n, 0, dom, |c, t| { c.assert_all_base_4(t); vec![] }, |x, _| holds(x.iter().all(|v| *v < b(4))));
    }
    v
}
fn product(d: &[Vec<B>]) -> Vec<Vec<B>> { d.iter().fold(vec![vec![]], |a, v| a.iter().flat_map(|x: &Vec<B>| v.iter().map(move |y| { let mut z = x.clone(); z.push(y.clone()); z })).collect()) }
fn hx(x: &[B]) -> String { x.iter().map(|y| y.to_str_radix(16)).collect::<Vec<_>>().join(",") }
fn pool_of<C: Hx>(n: usize, more: bool) -> Vec<B> where C::BaseField: Fx, C::ScalarField: Fx {
    let p = C::ScalarField::order();
    let v = vec![b(0), b(1), &p - 1u32, ge::<C::ScalarField>(1), b(2), ge::<C::ScalarField>(2), (&p - 1u32) / 2u32, (&p + 1u32) / 2u32, b(1) << 64u32, b(1) << 128u32, b(3), b(4)];
    let k = match n { 0 | 1 => 12, 2 => if more { 12 } else { 7 }, 3 => if more { 8 } else { 4 }, _ => if more { 4 } else { 3 } };
    v[..k].to_vec()
}

/// Variable operands (some of them the same target): honest outcome, and every substitution of generated values.
fn variable<C: Hx>(ctx: &'static Ctx, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let sp = specs::<C>();
    let n = sp.len();
    let sp = std::sync::Arc::new(sp);
    ctx.par_n(if full { 8 } else { 3 }, (0..n).collect(), move |&i| {
        let s = &sp[i];
        // Which operands share a target.
        let mut shapes: Vec<Vec<usize>> = vec![(0..s.ar).collect()];
        if s.ar == 2 { shapes.push(vec![0, 0]); }
        if s.ar == 3 && !s.name.starts_with("assert_all") { shapes.extend(vec![vec![0, 0, 1], vec![0, 1, 0], vec![0, 1, 1], vec![0, 0, 0]]); }
        for sh in shapes {
            ctx.bulk("variable", &format!("{} {} operands {:?}", C::CNAME, s.name, sh), || {
                let p = C::ScalarField::order();
                let k = sh.iter().max().map(|m| m + 1).unwrap_or(0);
                let mut bd = CircuitBuilder::<C>::new(128);
                let ts = bd.add_virtual_targets(k);
                let ops: Vec<_> = sh.iter().map(|j| ts[*j]).collect();
                let outs = (s.build)(&mut bd, &ops);
                ensure!(outs.len() == s.outs, "{} outputs", outs.len());
                let mut m = Model::<C>::new(bd.build());
                for t in &outs { m.cls(*t); }
                for t in &ts { m.cls(*t); }
                let doms: Vec<Vec<B>> = (0..k).map(|j| { let pos = sh.iter().position(|x| *x == j).unwrap(); if s.dom.is_empty() || s.dom[pos].is_empty() { pool_of::<C>(k, full && ctx.thorough) } else { s.dom[pos].clone() } }).collect();
                let mut all: Vec<(Vec<B>, Want)> = product(&doms).into_iter().map(|v| { let x: Vec<B> = sh.iter().map(|j| v[*j].clone()).collect(); let w = (s.want)(&x, &p); (v, w) }).collect();
                all.sort_by_key(|(_, w)| match w { Out(_) => 0, Unsat => 1, Skip => 2 }); // the first in-domain run names the generated targets
                let mut cnt = 0;
                for (v, w) in &all {
                    let inp: Vec<(Tg<C>, C::ScalarField)> = ts.iter().zip(v).map(|(t, x)| (*t, C::ScalarField::of(x))).collect();
                    let ins: BTreeSet<usize> = ts.iter().map(|t| m.of(*t)).collect();
                    let extra: Vec<C::ScalarField> = v.iter().chain(&[&p - 1u32]).map(|x| C::ScalarField::of(x)).collect();
                    let radix = vec![b(2), b(4)];
                    match w {
                        Skip => {}
                        Out(o) => {
                            let st = m.honest(&inp).map_err(|e| format!("{} of {}: {}", s.name, hx(v), e))?;
                            if let Some(r) = m.violated(&st) { return Err(format!("{} of {}: constraints of row {} of the generated witness do not vanish", s.name, hx(v), r)); }
                            for (t, y) in outs.iter().zip(o) { ensure!(st[m.of(*t)].is_some(), "{} of {}: the output was not generated", s.name, hx(v)); ensure!(m.get(&st, *t).val() == *y, "{} of {}: got {}, expected {}", s.name, hx(v), m.get(&st, *t).val().to_str_radix(16), y.to_str_radix(16)); }
                            cnt += 1;
                            cnt += m.explore(&st, &ins, &extra, &radix, true, &mut |t, what| {
                                for (x, y) in outs.iter().zip(o) { ensure!(m.get(t, *x).val() == *y, "{} of {}: another satisfying assignment has output {} instead of {} ({})", s.name, hx(v), m.get(t, *x).val().to_str_radix(16), y.to_str_radix(16), what()); }
                                Ok(())
                            })?;
                        }
                        Unsat => {
                            // The honest generator gives up or leaves a violated constraint; no alternative helps.
                            if let Some(Ok(st)) = silent(|| m.honest(&inp)) { ensure!(m.violated(&st).is_some(), "{} of {} is outside the domain, but the generated witness satisfies all constraints", s.name, hx(v)); }
                            let base: Fault<C::ScalarField> = ts.iter().map(|t| m.of(*t)).zip(v.iter().map(|x| C::ScalarField::of(x))).collect();
                            let st = m.scratch(&base);
                            ensure!(m.violated(&st).is_some(), "{} of {} is outside the domain, but satisfiable", s.name, hx(v)); cnt += 1;
                            let mut seen = |_: &St<C::ScalarField>, what: &dyn Fn() -> String| -> R { Err(format!("{} of {} is outside the domain, but satisfiable ({})", s.name, hx(v), what())) };
                            let hints: Vec<usize> = (0..m.outs.len()).filter(|g| m.is_hint(*g)).collect();
                            for g in hints { let os: Vec<usize> = m.outs[g].iter().map(|x| x.1).collect(); if os.len() > 4 { continue; }
                                let al: Vec<B> = pool_of::<C>(1, true).into_iter().chain(v.iter().cloned()).collect();
                                for f in product(&vec![al; os.len()]) {
                                    let mut pin = base.clone(); for (c, y) in os.iter().zip(&f) { if !ins.contains(c) { pin.push((*c, C::ScalarField::of(y))); } }
                                    let st = m.scratch(&pin); cnt += 1;
                                    if m.violated(&st).is_none() { seen(&st, &|| format!("generated values {}", hx(&f)))?; }
                                }
                            }
                        }
                    }
                }
                Ok(cnt)
            });
        }
    });
}
/// Constant operands take shortcuts: every mix of constants and variables of a gadget, in one circuit.
fn constants<C: Hx>(ctx: &'static Ctx, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let sp = std::sync::Arc::new(specs::<C>());
    let n = sp.len();
    ctx.par_n(if full { 4 } else { 2 }, (0..n).collect(), move |&i| {
        let s = &sp[i];
        if s.ar == 0 || s.ar > 3 || s.name.starts_with("exp") || s.name.starts_with("assert_all") { return; }
        ctx.bulk("constants", &format!("{} {}", C::CNAME, s.name), || {
            let p = C::ScalarField::order();
            let cs = vec![b(0), b(1), &p - 1u32, b(2), ge::<C::ScalarField>(40)];
            let mut cnt = 0;
            // None stands for the variable operand.
            let mut mixes: Vec<Vec<Option<B>>> = vec![vec![]];
            for _ in 0..s.ar { mixes = mixes.into_iter().flat_map(|x| { let cs = &cs; (0..cs.len() + 1).map(move |k| { let mut y = x.clone(); y.push(if k == 0 { None } else { Some(cs[k - 1].clone()) }); y }).collect::<Vec<_>>() }).collect(); }
            mixes.retain(|m| m.iter().any(|x| x.is_some()));
            for x in vec![b(0), b(1), ge::<C::ScalarField>(41), &p - 1u32] {
                let mut good: Vec<(Vec<B>, Vec<Option<B>>, Vec<B>)> = vec![];
                for mx in &mixes {
                    let v: Vec<B> = mx.iter().map(|m| m.clone().unwrap_or(x.clone())).collect();
                    match (s.want)(&v, &p) { Out(o) => good.push((v, mx.clone(), o)), _ => {} }
                }
                if s.outs == 0 && s.ar > 0 { good.retain(|g| g.1.iter().any(|m| m.is_none())); }
                if s.name == "deterministic_square_root" && good.len() > 2 { good.truncate(2); }
                let mut bd = CircuitBuilder::<C>::new(128);
                let t = bd.add_virtual_target();
                let outs: Vec<Vec<Tg<C>>> = good.iter().map(|(_, mx, _)| { let ops: Vec<_> = mx.iter().map(|m| match m { None => t, Some(c) => bd.constant_wire(C::ScalarField::of(c)) }).collect(); (s.build)(&mut bd, &ops) }).collect();
                let c = bd.build();
                let mut w = PartialWitness::new(); w.set_target(t, C::ScalarField::of(&x));
                let w = c.generate_partial_witness(w);
                for ((v, mx, o), ts) in good.iter().zip(&outs) { for (t, y) in ts.iter().zip(o) {
                    ensure!(w.contains_target(*t) && w.get_target(*t).val() == *y, "{} of {} (constants {:?}): got {:?}, expected {}", s.name, hx(v), mx.iter().map(|m| m.is_some()).collect::<Vec<_>>(), if w.contains_target(*t) { Some(w.get_target(*t).val().to_str_radix(16)) } else { None }, y.to_str_radix(16));
                    cnt += 1;
                } }
                let n = c.degree();
                satisfied::<C, C::Inner>(&c, &wit(&Witness::from_partial(&w, n), n)).map_err(|e| format!("{} with constants and x = {}: {}", s.name, x.to_str_radix(16), e))?;
                if !full { break; }
            }
            Ok(cnt)
        });
    });
    ctx.bulk("constants", &format!("{} constant wires", C::CNAME), || {
        let p = C::ScalarField::order();
        let mut bd = CircuitBuilder::<C>::new(128);
        let vals: Vec<B> = vec![b(0), b(1), b(2), &p - 1u32, ge::<C::ScalarField>(3), b(77), b(77), (b(1) << 64u32) - 1u32];
        let mut t: Vec<Tg<C>> = vec![bd.zero_wire(), bd.one_wire(), bd.two_wire(), bd.neg_one_wire(), bd.constant_wire(C::ScalarField::of(&vals[4])), bd.constant_wire_u32(77)];
        t.extend(bd.constant_wires(&fv::<C::ScalarField>(&vals[6..])));
        ensure!(t[5] == t[6] || t[5] != t[6], "");
        let free = bd.add_virtual_target(); bd.generate_constant(free, C::ScalarField::of(&vals[4]));
        let again = bd.mul(free, t[1]); t.push(again);
        let zb = bd.zero_bounded_target(); t.push(zb.target);
        ensure!(zb.max == b(0), "bound of the zero target");
        let c = bd.build();
        let w = c.generate_partial_witness(PartialWitness::new());
        let want: Vec<B> = vals.iter().cloned().chain(vec![vals[4].clone(), b(0)]).collect();
        for (i, (t, v)) in t.iter().zip(&want).enumerate() { ensure!(w.get_target(*t).val() == *v, "constant {}: got {}, expected {}", i, w.get_target(*t).val(), v); }
        let n = c.degree();
        let full = wit(&Witness::from_partial(&w, n), n);
        satisfied::<C, C::Inner>(&c, &full)?;
        // A constant's wire accepts no other value.
        for (t, _) in t.iter().take(8).zip(&want) { if let Target::Wire(q) = t {
            let mut f = full.clone();
            for m in c.routing_target_partitions.get_partition(*t) { if let Target::Wire(x) = m { f[x.gate][x.input] = f[x.gate][x.input] + <C::ScalarField as Field>::ONE; } }
            ensure!(satisfied::<C, C::Inner>(&c, &f).is_err(), "constant at {:?} is not constrained", q);
        } }
        Ok(want.len() as u64 * 2)
    });
}
fn fv<F: Fx>(v: &[B]) -> Vec<F> { v.iter().map(|x| F::of(x)).collect() }

fn main() {
    run("C13", "exploration", "distinct = one gadget call with given operand values, or one substitution of generated values in its witness", |ctx| {
        ctx.par_n(5, (0..5usize).collect(), move |&i| match i {
            0 => variable::<Tweedledee>(ctx, true),
            1 => constants::<Tweedledee>(ctx, true),
            2 => { constants::<Pallas>(ctx, false); if ctx.thorough { variable::<Pallas>(ctx, false); } }
            3 => { constants::<Tweedledum>(ctx, false); if ctx.thorough { variable::<Tweedledum>(ctx, false); } }
            _ => { constants::<Vesta>(ctx, false); if ctx.thorough { variable::<Vesta>(ctx, false); } }
        });
    })
}
