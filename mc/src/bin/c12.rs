//! C12: gate relations, selector prefixes, gate generators and in-circuit evaluation of constraints.
use mc::alpha::*;
use mc::circ::*;
use mc::refm::*;
use mc::resc::*;
use mc::*;
use plonky::*;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum G { Add, Dbl, Endo, B4, Pi, Buf, Const, Arith, ResA, ResB }
use G::*;
const ALL: [G; 10] = [Add, Dbl, Endo, B4, Pi, Buf, Const, Arith, ResA, ResB];
/// Selector prefixes as documented in the prefix tree of the gates module.
fn prefix(g: G) -> &'static [u8] {
    match g { Pi => &[1, 0, 1, 0, 0, 1], Add => &[1, 0, 1, 0, 1], Dbl => &[1, 0, 1, 1, 1], Endo => &[1, 1], B4 => &[1, 0, 0, 0], Buf => &[1, 0, 1, 0, 0, 0], Const => &[1, 0, 1, 1, 0], Arith => &[1, 0, 0, 1], ResA => &[0, 0], ResB => &[0, 1] }
}
#[derive(Clone, Debug, PartialEq)]
struct Row { k: Vec<B>, l: Vec<B>, r: Vec<B>, d: Vec<B> } // constants, local wires, right wires, wires below
fn show(x: &Row) -> String { [&x.k, &x.l, &x.r, &x.d].iter().map(|v| v.iter().map(|y| y.to_str_radix(16)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" | ") }
struct Cv { p: B, a: B, zeta: B, res: Ref }

/// The relation each gate stands for.
fn relation(g: G, x: &Row, c: &Cv) -> bool {
    let p = &c.p;
    let m = |a: &B, d: &B| mul(a, d, p);
    let s = |a: &B, d: &B| sub(a, d, p);
    let ad = |a: &B, d: &B| add(a, d, p);
    let (l, r) = (&x.l, &x.r);
    let bit = |v: &B| *v == b(0) || *v == b(1);
    match g {
        Buf => true,
        Const => l[0] == x.k[5],
        Arith => l[3] == ad(&m(&m(&x.k[4], &l[0]), &l[1]), &m(&x.k[5], &l[2])),
        Pi => (0..3).all(|i| l[6 + i] == r[i]),
        B4 => l[2..9].iter().all(|v| *v < b(4)) && l[1] == l[2..9].iter().fold(l[0].clone(), |a, v| ad(&m(&b(4), &a), v)),
        ResA | ResB => {
            let v: Vec<B> = if g == ResA { if (0..4).any(|i| pw(&l[4 + i], &b(5), p) != l[i]) { return false; } l[4..8].to_vec() } else { l[0..4].iter().map(|v| pw(v, &b(5), p)).collect() };
            (0..4).all(|i| r[i] == (0..4).fold(x.k[2 + i].clone(), |a, j| ad(&a, &m(&c.res.mds[i][j], &v[j]))))
        }
        Dbl => {
            if l[1] == b(0) { return false; }
            let iv = inv(&m(&b(2), &l[1]), p);
            let la = m(&ad(&m(&b(3), &m(&l[0], &l[0])), &c.a), &iv);
            let xn = s(&m(&la, &la), &m(&b(2), &l[0]));
            l[4] == iv && l[5] == la && l[2] == xn && l[3] == s(&m(&la, &s(&l[0], &xn)), &l[1])
        }
        Add => {
            if l[0] == l[4] || !bit(&l[6]) { return false; }
            let iv = inv(&s(&l[0], &l[4]), p);
            let la = m(&s(&l[1], &l[5]), &iv);
            let x3 = s(&s(&m(&la, &la), &l[0]), &l[4]);
            let y3 = s(&m(&la, &s(&l[0], &x3)), &l[1]);
            let (x4, y4) = if l[6] == b(1) { (x3, y3) } else { (l[0].clone(), l[1].clone()) };
            l[7] == iv && l[8] == la && r[0] == x4 && r[1] == y4 && l[3] == ad(&m(&b(2), &l[2]), &l[6])
        }
        Endo => {
            if !bit(&l[6]) || !bit(&l[7]) { return false; }
            let z = if l[7] == b(1) { c.zeta.clone() } else { b(1) };
            let sg = if l[6] == b(1) { b(1) } else { p - 1u32 };
            let (x2, y2) = (m(&z, &l[4]), m(&sg, &l[5]));
            if x2 == l[0] { return false; }
            let iv = inv(&s(&l[0], &x2), p);
            let la = m(&s(&l[1], &y2), &iv);
            let x3 = s(&s(&m(&la, &la), &l[0]), &x2);
            l[8] == iv && r[0] == x3 && r[1] == s(&m(&la, &s(&l[0], &x3)), &l[1])
                && x.d[2] == ad(&ad(&m(&b(4), &l[2]), &m(&b(2), &l[7])), &l[6]) && x.d[3] == ad(&m(&b(2), &l[3]), &m(&sg, &z))
        }
    }
}
/// Rows satisfying the relation, for many operands; wires that the gate does not mention get arbitrary values.
fn good<C: Hx>(g: G, c: &Cv, more: usize) -> Vec<Row> where C::BaseField: Fx, C::ScalarField: Fx {
    let p = &c.p;
    let ge = |i: u64| generic::<C::ScalarField>(i).val();
    let m = |a: &B, d: &B| mul(a, d, p);
    let s = |a: &B, d: &B| sub(a, d, p);
    let ad = |a: &B, d: &B| add(a, d, p);
    let pool: Vec<B> = vec![b(0), b(1), p - 1u32, b(2), ge(3), ge(4)];
    let mut out = vec![];
    let base = |n: u64| -> Row { let mut k: Vec<B> = prefix(g).iter().map(|x| b(*x as u64)).collect(); while k.len() < 6 { k.push(ge(n * 64 + k.len() as u64)); } let w = |o: u64| (0..9).map(|i| ge(n * 64 + o + i)).collect(); Row { k, l: w(10), r: w(20), d: w(30) } };
    let (cv, g0) = inner_crv::<C>();
    let pt = |n: u64| cv.mul(&b(n), &g0).unwrap();
    match g {
        Buf => for n in 0..6 { out.push(base(n)); },
        Const => for (n, v) in pool.iter().enumerate() { let mut x = base(n as u64); x.k[5] = v.clone(); x.l[0] = v.clone(); out.push(x); },
        Arith => for (n, c0) in pool.iter().enumerate() { for c1 in &pool { for (i, m0) in pool.iter().enumerate() { for j in 0..pool.len() {
            if more == 0 && (n + i + j) % 3 != 0 { continue; }
            let (m1, a) = (&pool[j], &pool[(i + j + n) % pool.len()]);
            let mut x = base((n * 7 + i) as u64); x.k[4] = c0.clone(); x.k[5] = c1.clone(); x.l[0] = m0.clone(); x.l[1] = m1.clone(); x.l[2] = a.clone();
            x.l[3] = ad(&m(&m(c0, m0), m1), &m(c1, a)); out.push(x);
        } } } },
        Pi => for n in 0..8u64 { let mut x = base(n); for i in 0..3 { if n > 4 { x.l[6 + i] = pool[(i + n as usize) % 6].clone(); } x.r[i] = x.l[6 + i].clone(); } out.push(x); },
        B4 => for n in 0..4usize.pow(7) {
            if more == 0 && n % 37 != 0 && n > 16 { continue; }
            let mut x = base((n % 50) as u64); let mut v = n; for i in 0..7 { x.l[2 + i] = b((v % 4) as u64); v /= 4; }
            x.l[0] = pool[n % 6].clone();
            x.l[1] = x.l[2..9].iter().fold(x.l[0].clone(), |a, v| ad(&m(&b(4), &a), v)); out.push(x);
        },
        ResA | ResB => for n in 0..if more > 0 { 60 } else { 12 } {
            let mut x = base(n as u64);
            let v: Vec<B> = (0..4).map(|i| if n < 8 { pool[(n * (i + 1) + i) % 6].clone() } else { ge((n * 4 + i) as u64 + 900) }).collect();
            let f: Vec<B> = v.iter().map(|y| pw(y, &b(5), p)).collect();
            for i in 0..4 { if g == ResA { x.l[4 + i] = v[i].clone(); x.l[i] = f[i].clone(); } else { x.l[i] = v[i].clone(); } }
            if n % 3 == 1 { for i in 0..4 { x.k[2 + i] = pool[(n + i) % 6].clone(); } }
            let t = if g == ResA { &v } else { &f };
            for i in 0..4 { x.r[i] = (0..4).fold(x.k[2 + i].clone(), |a, j| ad(&a, &m(&c.res.mds[i][j], &t[j]))); }
            out.push(x);
        },
        Dbl => for n in 1..if more > 0 { 40u64 } else { 8 } {
            let mut x = base(n);
            let (px, py) = if n % 4 == 3 { (ge(n), ge(n + 1)) } else { pt(n * n) }; // the relation is algebraic: also off the curve
            let iv = inv(&m(&b(2), &py), p); let la = m(&ad(&m(&b(3), &m(&px, &px)), &c.a), &iv);
            let xn = s(&m(&la, &la), &m(&b(2), &px)); let yn = s(&m(&la, &s(&px, &xn)), &py);
            for (i, v) in vec![px, py, xn, yn, iv, la].into_iter().enumerate() { x.l[i] = v; }
            out.push(x);
        },
        Add | Endo => for n in 1..if more > 0 { 40u64 } else { 8 } { for bits in 0..if g == Add { 2u64 } else { 4 } {
            let mut x = base(n);
            let ((x1, y1), (xi, yi)) = if n % 4 == 3 { ((ge(n), ge(n + 1)), (ge(n + 2), ge(n + 3))) } else { (pt(n + 1), pt(n * n + 5)) };
            let z = if g == Endo && bits & 2 != 0 { c.zeta.clone() } else { b(1) };
            let sg = if g == Endo && bits & 1 == 0 { p - 1u32 } else { b(1) };
            let (x2, y2) = (m(&z, &xi), m(&sg, &yi));
            let iv = inv(&s(&x1, &x2), p); let la = m(&s(&y1, &y2), &iv);
            let x3 = s(&s(&m(&la, &la), &x1), &x2); let y3 = s(&m(&la, &s(&x1, &x3)), &y1);
            x.l[0] = x1.clone(); x.l[1] = y1.clone(); x.l[4] = xi; x.l[5] = yi; x.l[6] = b(bits & 1);
            if n < 6 { x.l[2] = pool[n as usize].clone(); }
            if g == Add { x.l[7] = iv; x.l[8] = la; x.l[3] = ad(&m(&b(2), &x.l[2]), &b(bits)); let (x4, y4) = if bits == 1 { (x3, y3) } else { (x1, y1) }; x.r[0] = x4; x.r[1] = y4; }
            else { x.l[7] = b(bits >> 1); x.l[8] = iv; x.r[0] = x3; x.r[1] = y3; x.d[2] = ad(&m(&b(4), &x.l[2]), &b(bits)); x.d[3] = ad(&m(&b(2), &x.l[3]), &m(&sg, &z)); }
            out.push(x);
        } },
    }
    out
}
fn fv<F: Fx>(v: &[B]) -> Vec<F> { v.iter().map(|x| F::of(x)).collect() }
fn vanish<C: Hx>(x: &Row) -> Result<bool, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let e = evaluate_all_constraints::<C, C::Inner>(&fv(&x.k), &fv(&x.l), &fv(&x.r), &fv(&x.d));
    ensure!(e.iter().all(|v| v.reduced()), "unreduced constraint value");
    Ok(e.iter().all(|v| v.val() == b(0)))
}
fn consts<C: Hx>() -> Cv where C::BaseField: Fx, C::ScalarField: Fx { Cv { p: C::ScalarField::order(), a: <C::Inner as Curve>::A.val(), zeta: <C::Inner as HaloCurve>::ZETA.val(), res: reference::<C::ScalarField>(4, 128) } }

fn relations<C: Hx>(ctx: &'static Ctx, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par_n(3, ALL.to_vec(), move |&g| {
        ctx.bulk("relation", &format!("{} {:?} gate", C::CNAME, g), || {
            let c = consts::<C>();
            let rows = good::<C>(g, &c, if full && ctx.thorough { 1 } else { 0 });
            let p = &c.p;
            let mut cnt = 0;
            let check = |x: &Row, what: &dyn Fn() -> String| -> Result<u64, String> {
                let (v, w) = (vanish::<C>(x)?, relation(g, x, &c));
                ensure!(v == w, "{:?} gate: constraints {} although the relation {} ({}): {}", g, if v { "vanish" } else { "do not vanish" }, if w { "holds" } else { "does not hold" }, what(), show(x));
                Ok(1)
            };
            for x in &rows { ensure!(relation(g, x, &c), "reference row"); cnt += check(x, &|| "honest row".to_string())?; }
            // Deviations of every wire and configuration constant, by several amounts, and of every pair of wires.
            let step = (rows.len() / if full { 24 } else { 6 }).max(1);
            for x in rows.iter().step_by(step) {
                let mut cells: Vec<(usize, usize)> = vec![];
                for v in 1..4 { for i in 0..9 { cells.push((v, i)); } }
                for i in prefix(g).len()..6 { cells.push((0, i)); }
                let at = |x: &mut Row, (v, i): (usize, usize), y: B| { match v { 0 => x.k[i] = y, 1 => x.l[i] = y, 2 => x.r[i] = y, _ => x.d[i] = y } };
                let get = |x: &Row, (v, i): (usize, usize)| -> B { let t = match v { 0 => &x.k, 1 => &x.l, 2 => &x.r, _ => &x.d }; t[i].clone() };
                let devs = |v: &B| -> Vec<B> { vec![add(v, &b(1), p), sub(v, &b(1), p), neg(v, p), b(0), b(1), b(2), b(3), b(4), p - 1u32, mul(v, &c.zeta, p), generic::<C::ScalarField>(7777).val()] };
                for &cell in &cells { for (n, y) in devs(&get(x, cell)).into_iter().enumerate() { let mut z = x.clone(); at(&mut z, cell, y); cnt += check(&z, &|| format!("cell {:?} deviation {}", cell, n))?; } }
                // Pairs of local/right/below cells the gate may mention.
                for a in 0..cells.len() { for d in 0..a {
                    let (ca, cd) = (cells[a], cells[d]);
                    let (va, vd) = (get(x, ca), get(x, cd));
                    for (ya, yd) in vec![(add(&va, &b(1), p), add(&vd, &b(1), p)), (add(&va, &b(1), p), sub(&vd, &b(1), p)), (vd.clone(), va.clone()), (neg(&va, p), neg(&vd, p)), (add(&va, &b(1), p), add(&vd, &b(4), p))] {
                        let mut z = x.clone(); at(&mut z, ca, ya); at(&mut z, cd, yd); cnt += check(&z, &|| format!("cells {:?} and {:?}", ca, cd))?;
                    }
                } }
            }
            // Consistently wrong helper values: the exceptional cases of addition and doubling.
            if g == Add || g == Dbl || g == Endo { for x in rows.iter().take(6) {
                let mut z = x.clone();
                if g == Dbl { z.l[1] = b(0); for iv in vec![b(0), b(1)] { z.l[4] = iv; cnt += check(&z, &|| "y = 0".to_string())?; } }
                else { z.l[4] = z.l[0].clone(); for iv in vec![b(0), b(1)] { z.l[if g == Add { 7 } else { 8 }] = iv; cnt += check(&z, &|| "equal x".to_string())?; } }
            } }
            Ok(cnt)
        });
    });
}

fn filters<C: Hx>(k: &[C::ScalarField]) -> Vec<B> where C::BaseField: Fx, C::ScalarField: Fx {
    vec![CurveAddGate::<C, C::Inner>::evaluate_prefix_filter(k), CurveDblGate::<C, C::Inner>::evaluate_prefix_filter(k), CurveEndoGate::<C, C::Inner>::evaluate_prefix_filter(k),
        Base4SumGate::<C>::evaluate_prefix_filter(k), PublicInputGate::<C>::evaluate_prefix_filter(k), BufferGate::<C>::evaluate_prefix_filter(k), ConstantGate::<C>::evaluate_prefix_filter(k),
        ArithmeticGate::<C>::evaluate_prefix_filter(k), RescueStepAGate::<C>::evaluate_prefix_filter(k), RescueStepBGate::<C>::evaluate_prefix_filter(k)].iter().map(|x| x.val()).collect()
}
fn prefixes<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("prefix", C::CNAME, || {
        let p = C::ScalarField::order();
        let pool = vec![b(0), b(1), b(2), &p - 1u32, generic::<C::ScalarField>(1).val()];
        let mut cnt = 0;
        for (gi, g) in ALL.iter().enumerate() {
            let f = 6 - prefix(*g).len();
            for n in 0..pool.len().pow(f as u32) {
                let mut k: Vec<B> = prefix(*g).iter().map(|x| b(*x as u64)).collect();
                let mut v = n; for _ in 0..f { k.push(pool[v % pool.len()].clone()); v /= pool.len(); }
                let fs = filters::<C>(&fv(&k));
                for (i, x) in fs.iter().enumerate() { ensure!((i == gi) == (*x != b(0)), "constants {:?} of a {:?} row: the selector of the {:?} gate is {}", k, g, ALL[i], x); cnt += 1; }
            }
        }
        // Every 0/1 row activates at most one gate.
        for n in 0..64u64 { let k: Vec<B> = (0..6).map(|i| b(n >> i & 1)).collect(); let a = filters::<C>(&fv(&k)).iter().filter(|x| **x != b(0)).count(); ensure!(a <= 1, "row {:?} activates {} gates", k, a); cnt += 1; }
        Ok(cnt)
    });
}

/// Each gate's own generator, in a circuit where the gate is followed by a buffer.
fn generators<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par_n(3, ALL.iter().filter(|g| **g != Endo).cloned().collect(), move |&g| {
        ctx.bulk("generator", &format!("{} {:?} gate", C::CNAME, g), || {
            let c = consts::<C>();
            let rows = good::<C>(g, &c, 0);
            let mut cnt = 0;
            // Inputs of each gate; everything else in its relation is generated.
            let ins: Vec<usize> = match g { Add => vec![0, 1, 2, 4, 5, 6], Dbl => vec![0, 1], B4 => vec![0, 2, 3, 4, 5, 6, 7, 8], Arith => vec![0, 1, 2], ResA | ResB => vec![0, 1, 2, 3], Pi => (0..9).collect(), _ => vec![] };
            let step = (rows.len() / 60).max(1);
            for chunk in rows.iter().step_by(step).collect::<Vec<_>>().chunks(20) {
                let mut bd = CircuitBuilder::<C>::new(128);
                bd.add_gate_no_constants(BufferGate::new(0));
                for x in chunk {
                    let i = bd.num_gates();
                    let cfg: Vec<C::ScalarField> = fv(&x.k[prefix(g).len()..]);
                    match g {
                        Add => bd.add_gate(CurveAddGate::<C, C::Inner>::new(i), cfg), Dbl => bd.add_gate(CurveDblGate::<C, C::Inner>::new(i), cfg), B4 => bd.add_gate(Base4SumGate::new(i), cfg),
                        Pi => bd.add_gate(PublicInputGate::new(i), cfg), Buf => bd.add_gate(BufferGate::new(i), cfg), Const => bd.add_gate(ConstantGate::new(i), cfg), Arith => bd.add_gate(ArithmeticGate::new(i), cfg),
                        ResA => bd.add_gate(RescueStepAGate::new(i), cfg), _ => bd.add_gate(RescueStepBGate::new(i), cfg),
                    }
                    let i = bd.num_gates();
                    bd.add_gate_no_constants(BufferGate::new(i));
                }
                let cir = bd.build();
                let mut w = PartialWitness::new();
                for (n, x) in chunk.iter().enumerate() { for i in &ins { w.set_wire(Wire { gate: 1 + 2 * n, input: *i }, C::ScalarField::of(&x.l[*i])); } }
                let pw_ = cir.generate_partial_witness(w);
                for (n, x) in chunk.iter().enumerate() {
                    let get = |gate: usize, input: usize| if pw_.contains_wire(Wire { gate, input }) { Some(pw_.get_wire(Wire { gate, input }).val()) } else { None };
                    let k: Vec<B> = cir.gate_constants[1 + 2 * n].iter().map(|v| v.val()).collect();
                    ensure!(k == x.k, "{:?} gate: constants {:?}, expected {:?}", g, k, x.k);
                    let want: Vec<(usize, usize, &B)> = match g { Add => vec![(0, 3, &x.l[3]), (0, 7, &x.l[7]), (0, 8, &x.l[8]), (1, 0, &x.r[0]), (1, 1, &x.r[1])], Dbl => (2..6).map(|i| (0, i, &x.l[i])).collect(), B4 => vec![(0, 1, &x.l[1])], Const => vec![(0, 0, &x.l[0])], Arith => vec![(0, 3, &x.l[3])],
                        Pi => (0..3).map(|i| (1, i, &x.r[i])).collect(), ResA => (0..4).map(|i| (0, 4 + i, &x.l[4 + i])).chain((0..4).map(|i| (1, i, &x.r[i]))).collect(), ResB => (0..4).map(|i| (1, i, &x.r[i])).collect(), _ => vec![] };
                    for (dg, i, v) in want { let got = get(1 + 2 * n + dg, i); ensure!(got.as_ref() == Some(v), "{:?} gate with inputs {:?}: wire {} of row +{} is {:?}, expected {}", g, ins.iter().map(|i| &x.l[*i]).collect::<Vec<_>>(), i, dg, got, v); }
                    let row = |o: usize| -> Vec<B> { (0..9).map(|i| get(1 + 2 * n + o, i).unwrap_or(b(0))).collect() };
                    ensure!(vanish::<C>(&Row { k, l: row(0), r: row(1), d: vec![b(0); 9] })?, "{:?} gate: generated row does not satisfy its constraints", g);
                    cnt += 1;
                }
            }
            Ok(cnt)
        });
    });
}

/// In-circuit evaluation of all constraints against the native one.
fn recursive<C: Hx>(ctx: &'static Ctx, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    type Tg<C> = Target<<C as Curve>::ScalarField>;
    let c = consts::<C>();
    let ge = |i: u64| generic::<C::ScalarField>(i).val();
    let mut rows: Vec<Row> = vec![];
    for n in 0..ctx.tier(8u64, 60) { let w = |o: u64, l: u64| (0..l).map(|i| ge(n * 100 + o + i)).collect(); rows.push(Row { k: w(0, 6), l: w(10, 9), r: w(20, 9), d: w(30, 9) }); }
    for g in &ALL { let v = good::<C>(*g, &c, 0); let s = (v.len() / ctx.tier(3, 20)).max(1); rows.extend(v.into_iter().step_by(s)); }
    for g in &ALL { let mut x = rows[0].clone(); for (i, v) in prefix(*g).iter().enumerate() { x.k[i] = b(*v as u64); } rows.push(x); }
    // Zero rows, and rows that differ from a generic one in one cell being 0, 1 or -1.
    rows.push(Row { k: vec![b(0); 6], l: vec![b(0); 9], r: vec![b(0); 9], d: vec![b(0); 9] });
    rows.push(Row { k: vec![b(1); 6], l: vec![b(1); 9], r: vec![b(1); 9], d: vec![b(1); 9] });
    for i in 0..9 { for v in vec![b(0), b(1), &c.p - 1u32] { let mut x = rows[1].clone(); if i < 6 { x.k[i] = v.clone(); } x.l[i] = v.clone(); rows.push(x.clone()); x.r[i] = v.clone(); x.d[(i + 1) % 9] = v; rows.push(x); } }
    let build = |mk: &mut dyn FnMut(&mut CircuitBuilder<C>, usize, usize) -> Tg<C>| {
        let mut bd = CircuitBuilder::<C>::new(128);
        let mut ts: Vec<Vec<Tg<C>>> = vec![];
        for (v, n) in vec![6usize, 9, 9, 9].into_iter().enumerate() { let mut t = vec![]; for i in 0..n { t.push(mk(&mut bd, v, i)); } ts.push(t); }
        let outs = evaluate_all_constraints_recursively::<C, C::Inner>(&mut bd, &ts[0], &ts[1], &ts[2], &ts[3]);
        (bd.build(), ts, outs)
    };
    let check = |cir: &Circuit<C>, ts: &Vec<Vec<Tg<C>>>, outs: &Vec<Tg<C>>, x: &Row, set: bool| -> R {
        let mut w = PartialWitness::new();
        if set { for (t, v) in ts.iter().zip(vec![&x.k, &x.l, &x.r, &x.d]) { w.set_targets(t, &fv(v)); } }
        let pw_ = cir.generate_partial_witness(w);
        let want = evaluate_all_constraints::<C, C::Inner>(&fv(&x.k), &fv(&x.l), &fv(&x.r), &fv(&x.d));
        ensure!(want.len() == outs.len(), "{} constraints natively, {} in circuit", want.len(), outs.len());
        for (i, (o, v)) in outs.iter().zip(&want).enumerate() { ensure!(pw_.contains_target(*o) && pw_.get_target(*o) == *v, "constraint {} of {}: {:?} in circuit, {} natively", i, show(x), if pw_.contains_target(*o) { Some(pw_.get_target(*o).val()) } else { None }, v.val()); }
        satisfied::<C, C::Inner>(cir, &wit(&Witness::from_partial(&pw_, cir.degree()), cir.degree()))
    };
    let rows = Arc::new(rows);
    let r2 = rows.clone();
    ctx.bulk("in circuit", &format!("{} evaluation of given rows", C::CNAME), || {
        let (cir, ts, outs) = build(&mut |bd, _, _| bd.add_virtual_target());
        let mut cnt = 0;
        for x in r2.iter() { check(&cir, &ts, &outs, x, true)?; cnt += 1; }
        Ok(cnt)
    });
    // The same with rows given as constants (equal values share a target).
    if full { ctx.bulk("in circuit", &format!("{} evaluation of constant rows", C::CNAME), || {
        let mut cnt = 0;
        let s = rows.len() / ctx.tier(8, 40);
        for x in rows.iter().skip(2).step_by(s) {
            let (cir, ts, outs) = build(&mut |bd, v, i| bd.constant_wire(C::ScalarField::of(match v { 0 => &x.k[i], 1 => &x.l[i], 2 => &x.r[i], _ => &x.d[i] })));
            check(&cir, &ts, &outs, x, false)?; cnt += 1;
        }
        Ok(cnt)
    }); }
}

fn all<C: Hx>(ctx: &'static Ctx, part: usize, full: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    match part { 0 => relations::<C>(ctx, full), 1 => { prefixes::<C>(ctx); generators::<C>(ctx) } _ => recursive::<C>(ctx, full) }
}
fn main() {
    run("C12", "exploration", "distinct = one row (honest or with a deviation), one constants row, or one generated row", |ctx| {
        ctx.par((0..12usize).collect(), move |&i| match i % 4 { 0 => all::<Tweedledee>(ctx, i / 4, true), 1 => all::<Tweedledum>(ctx, i / 4, false), 2 => all::<Pallas>(ctx, i / 4, false), _ => all::<Vesta>(ctx, i / 4, false) });
    })
}
