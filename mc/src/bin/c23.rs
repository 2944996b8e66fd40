//! C23: the lookup argument: every admissible list is accepted, nothing else is.
use mc::alpha::*;
use mc::circ::*;
use mc::plk::*;
use mc::*;
use plonky::*;

type S<C> = <C as Curve>::ScalarField;
fn f1<F: Field>() -> F { <F as Field>::ONE }

/// Distinct entries that mean something: 0, 1, -1 and generic ones.
fn table<F: Fx>(k: usize, n: usize) -> Vec<F> {
    let g = |i: u64| generic::<F>(900 + i);
    let base: Vec<F> = match k { 0 => vec![F::ZERO, f1(), g(0)], 1 => vec![g(1), F::ZERO, f1()], _ => vec![f1(), g(2), g(3)] };
    (0..n).map(|i| if i < 3 { base[i] } else { g(10 + i as u64) }).collect()
}
fn lists(n: usize, len: usize) -> Vec<Vec<usize>> { (0..n.pow(len as u32)).map(|mut k| (0..len).map(|_| { let d = k % n; k /= n; d }).collect()).collect() }

/// Every list over the table up to a length is accepted, the proof refused for other tables, and every list with a foreign entry refused.
fn complete<C: Hx>(ctx: &'static Ctx, cases: Vec<(usize, usize, Vec<usize>)>) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par(cases, move |(k, n, idx)| {
        ctx.bulk("lists of table entries", &format!("{} table {} of {} entries, lookups {:?}", C::CNAME, k, n, idx), || {
            let a = api::<C>();
            let t = table::<S<C>>(*k, *n);
            let f: Vec<S<C>> = idx.iter().map(|i| t[*i]).collect();
            let m = (a.prove)(&f, &t).map_err(|e| format!("not proved: {}", e))?;
            (a.verify)(&t, &m).map_err(|e| format!("not accepted: {}", e))?;
            ensure!(m.n + 1 >= t.len().max(f.len() + 1) && (m.n + 1).is_power_of_two(), "a domain of {} rows", m.n + 1);
            let mut cnt = 1;
            // Other tables.
            if idx.len() < 2 {
                let mut other: Vec<Vec<S<C>>> = vec![];
                for i in 0..*n { let mut u = t.clone(); u[i] = u[i] + f1::<S<C>>(); other.push(u); let mut u = t.clone(); u.remove(i); other.push(u); for j in 0..i { let mut u = t.clone(); u.swap(i, j); other.push(u); } }
                let mut u = t.clone(); u.push(generic::<S<C>>(5000)); other.push(u);
                let mut u = t.clone(); u.insert(0, generic::<S<C>>(5000)); other.push(u);
                let mut u = t.clone(); let v = t.clone(); u.extend(v); other.push(u);
                other.push(vec![]); other.push(vec![generic::<S<C>>(5000); *n]); other.push(t.iter().map(|x| -*x).collect());
                let pad = |u: &[S<C>]| -> Vec<S<C>> { let mut u = u.to_vec(); let l = *u.last().unwrap(); while u.len() < m.n + 1 { u.push(l); } u };
                for u in other { if !u.is_empty() && pad(&u) == pad(&t) { continue; } cnt += 1; let r = catch(|| (a.verify)(&u, &m)).map_err(|e| format!("verifying for another table: panic: {}", e))?; ensure!(r.is_err(), "accepted for another table of {} entries", u.len()); }
            }
            Ok(cnt)
        });
    });
}
fn foreign<C: Hx>(ctx: &'static Ctx, n: usize, len: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("lists with a foreign entry", &format!("{} table of {} entries, up to {} lookups", C::CNAME, n, len), || {
        let mut cnt = 0;
        for k in 0..3 {
            let t = table::<S<C>>(k, n);
            let mut al = t.clone();
            for x in vec![S::<C>::ZERO, f1(), generic(7000), t[0] + t[n - 1], -t[0], t[0] + f1()] { if !al.contains(&x) { al.push(x); } }
            for l in 1..=len { for idx in lists(al.len(), l) {
                if idx.iter().all(|i| *i < n) { continue; }
                let f: Vec<S<C>> = idx.iter().map(|i| al[*i]).collect();
                cnt += 1;
                let r = catch(|| plookup::plookup::prove::<C>(&f, &t).is_err()).map_err(|e| format!("table {} lookups {:?}: panic: {}", k, idx, e))?;
                ensure!(r, "table {} lookups {:?}: proved", k, idx);
            } }
        }
        ensure!(plookup::plookup::prove::<C>(&[], &[]).is_err() && plookup::plookup::prove::<C>(&[f1()], &[]).is_err(), "proved for the empty table");
        Ok(cnt)
    });
}

fn elem_faults<F: Fx>(x: F) -> Vec<(&'static str, F)> { vec![(":= 0", F::ZERO), ("+ 1", x + f1()), ("negated", -x), (":= 1", f1()), (":= a generic value", generic::<F>(4242)), (":= -1, which need not fit the other field", F::NEG_ONE)] }
fn point_faults<C: Hx>(q: AffinePoint<C>) -> Vec<(&'static str, AffinePoint<C>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let raw = |x, y, zero| AffinePoint::<C> { x, y, zero };
    let one = <C::BaseField as Field>::ONE; let z = C::BaseField::ZERO;
    vec![("negated", -q), ("+ G", (q.to_projective() + C::GENERATOR_PROJECTIVE).to_affine()), (":= G", C::GENERATOR_AFFINE), ("x times the endomorphism's constant", raw(q.x * C::ZETA, q.y, q.zero)), ("the identity", AffinePoint::ZERO),
        ("x + 1, off the curve", raw(q.x + one, q.y, false)), ("y + 1, off the curve", raw(q.x, q.y + one, false)), ("(0, 0) flagged as finite", raw(z, z, false)), ("flagged as the identity", raw(q.x, q.y, true))]
}
enum Slot<'a, C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { E(&'a mut S<C>), P(&'a mut AffinePoint<C>) }
fn slots<C: Hx>(m: &mut Msg<C>) -> Vec<(String, Slot<C>)> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut v: Vec<(String, Slot<C>)> = vec![];
    for (i, x) in m.c.iter_mut().enumerate() { v.push((format!("commitment to {}", NAMES[i]), Slot::P(x))); }
    for (i, x) in m.o.iter_mut().enumerate() { for (k, y) in x.iter_mut().enumerate() { v.push((format!("{} opening of {}", ["local", "right"][k], NAMES[i]), Slot::E(y))); } }
    for (i, x) in m.l.iter_mut().enumerate() { v.push((format!("L {}", i), Slot::P(x))); }
    for (i, x) in m.r.iter_mut().enumerate() { v.push((format!("R {}", i), Slot::P(x))); }
    v.push(("G".into(), Slot::P(&mut m.g)));
    v.push(("Schnorr R".into(), Slot::P(&mut m.schnorr.r)));
    v.push(("Schnorr z1".into(), Slot::E(&mut m.schnorr.z1)));
    v.push(("Schnorr z2".into(), Slot::E(&mut m.schnorr.z2)));
    v
}
/// Other L_j until every round challenge exists.
fn mend<C: Hx>(a: &Api<C>, m: &Msg<C>) -> Option<Msg<C>> where C::BaseField: Fx, C::ScalarField: Fx {
    if m.l.len() > 12 || m.l.len() != m.r.len() || (a.chal)(m).is_ok() { return None; }
    let mut t = m.clone(); t.l.clear(); t.r.clear();
    if (a.chal)(&t).is_err() { return None; }
    for (x, y) in m.l.iter().zip(&m.r) {
        let mut x = if x.is_valid() { *x } else { C::GENERATOR_AFFINE };
        t.r.push(*y);
        for k in 0.. { if k == 24 { return None; } t.l.push(x); if (a.chal)(&t).is_ok() { break; } t.l.pop(); x = (x.to_projective() + C::GENERATOR_PROJECTIVE).to_affine(); }
    }
    Some(t)
}
fn refused<C: Hx>(a: &Api<C>, t: &[S<C>], m: &Msg<C>, what: &str) -> R where C::BaseField: Fx, C::ScalarField: Fx {
    let one = |m: &Msg<C>, what: &str| -> R { match catch(|| (a.verify)(t, m).is_err()) { Err(e) => Err(format!("{}: panic: {}", what, e)), Ok(r) => { ensure!(r, "{}: accepted", what); Ok(()) } } };
    one(m, what)?;
    if let Some(x) = catch(|| mend(a, m)).unwrap_or(None) { one(&x, &format!("{}, L mended", what))?; }
    Ok(())
}
fn altered<C: Hx>(ctx: &'static Ctx, n: usize, len: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let nm = format!("{} table of {} entries, {} lookups", C::CNAME, n, len);
    let t = table::<S<C>>(1, n);
    let f: Vec<S<C>> = (0..len).map(|i| t[(i * 2 + 1) % n]).collect();
    let a = api::<C>();
    let (base, other) = match ((a.prove)(&f, &t), (a.prove)(&f[..len - 1], &t)) { (Ok(a), Ok(b)) => (a, b), _ => { ctx.fail("setup/proof", "an honest proof failed"); return; } };
    let k = slots(&mut base.clone()).len();
    let (b2, t2, n2) = (base.clone(), t.clone(), nm.clone());
    ctx.par((0..k).collect(), move |&i| { let name = slots(&mut b2.clone())[i].0.clone(); ctx.bulk("single alterations", &format!("{} {}", n2, name), || {
        let a = api::<C>();
        let mut cnt = 0;
        for f in 0..12 {
            let mut m = b2.clone();
            let what = { let mut s = slots(&mut m); match &mut s[i].1 {
                Slot::E(x) => { let l = elem_faults::<S<C>>(**x); if f >= l.len() { break; } **x = l[f].1; l[f].0 }
                Slot::P(x) => { let l = point_faults::<C>(**x); if f >= l.len() { break; } **x = l[f].1; l[f].0 } } };
            if m == b2 { continue; }
            refused(a, &t2, &m, &format!("{}: {}", name, what))?; cnt += 1;
        }
        Ok(cnt)
    }); });
    // Lists, sizes, exchanges.
    type Ed<C> = Box<dyn Fn(&mut Msg<C>, &Msg<C>) + Send + Sync>;
    let mut e: Vec<(String, Ed<C>)> = vec![];
    fn put<C: Hx>(e: &mut Vec<(String, Ed<C>)>, n: String, f: impl Fn(&mut Msg<C>, &Msg<C>) + Send + Sync + 'static) where C::BaseField: Fx, C::ScalarField: Fx { e.push((n, Box::new(f))) }
    for d in vec![0usize, 1, 2, 3, 4, 5, 6, 7, 8, 15, 31, 1 << 20, usize::max_value(), usize::max_value() / 2, (1 << 31) - 1, (1 << 30) - 1] { put(&mut e, format!("n := {}", d), move |m, _| m.n = d); }
    for side in 0..3 { for how in 0..5 { for i in 0..5usize {
        put(&mut e, format!("{} list, edit {} at {}", ["L", "R", "both"][side], how, i), move |m, _| {
            let fill = C::GENERATOR_AFFINE;
            let mut ls = vec![]; if side != 1 { ls.push(&mut m.l); } if side != 0 { ls.push(&mut m.r); }
            for l in ls { let n = l.len(); match how { 0 => if i < n { l.remove(i); }, 1 => if i < n { let x = l[i]; l.insert(i, x); }, 2 => if i <= n { l.insert(i, fill); }, 3 => if i + 1 < n { l.swap(i, i + 1); }, _ => l.truncate(i) } }
        });
    } } }
    for k in 1..5usize { put(&mut e, format!("{} rounds dropped and n made to fit", k), move |m, _| { let j = m.l.len().max(k) - k; m.l.truncate(j); m.r.truncate(j); m.n = (1usize << j) / 2; m.n = m.n.max(1) - 1; });
        put(&mut e, format!("{} rounds added and n made to fit", k), move |m, _| { for _ in 0..k { m.l.push(C::GENERATOR_AFFINE); m.r.push(C::GENERATOR_AFFINE); } m.n = (1 << (m.l.len() - 1)) - 1; }); }
    for k in vec![64usize, 65, 128, 1000] { put(&mut e, format!("{} rounds", k), move |m, _| { while m.l.len() < k { m.l.push(C::GENERATOR_AFFINE); m.r.push(C::GENERATOR_AFFINE); } }); }
    for i in 0..6 { for j in 0..i { put(&mut e, format!("commitments to and openings of {} and {} exchanged", NAMES[i], NAMES[j]), move |m, _| { m.c.swap(i, j); m.o.swap(i, j); }); put(&mut e, format!("openings of {} and {} exchanged", NAMES[i], NAMES[j]), move |m, _| m.o.swap(i, j)); } }
    put(&mut e, "local and right openings exchanged".into(), |m, _| for o in &mut m.o { o.swap(0, 1) });
    put(&mut e, "L and R exchanged".into(), |m, _| std::mem::swap(&mut m.l, &mut m.r));
    for i in 0..6 { put(&mut e, format!("{} of another proof", NAMES[i]), move |m, o| { m.c[i] = o.c[i]; m.o[i] = o.o[i]; }); }
    put(&mut e, "openings of another proof".into(), |m, o| m.o = o.o.clone());
    put(&mut e, "commitments of another proof".into(), |m, o| m.c = o.c.clone());
    put(&mut e, "opening argument of another proof".into(), |m, o| { m.l = o.l.clone(); m.r = o.r.clone(); m.g = o.g; m.schnorr = o.schnorr; });
    put(&mut e, "G of another proof".into(), |m, o| m.g = o.g);
    put(&mut e, "Schnorr part of another proof".into(), |m, o| m.schnorr = o.schnorr);
    for (k, q) in vec![("the identity", AffinePoint::<C>::ZERO), ("G", C::GENERATOR_AFFINE)] { for (x, y) in vec![("0", S::<C>::ZERO), ("1", f1())] { put(&mut e, format!("all points {}, all elements {}", k, x), move |m, _| for (_, s) in slots(m) { match s { Slot::E(z) => *z = y, Slot::P(z) => *z = q } }); } }
    let e = std::sync::Arc::new(e);
    let tt = std::sync::Arc::new((base, other, t));
    ctx.par((0..e.len()).collect(), move |&i| { ctx.bulk("lists, sizes, exchanges and trivial proofs", &format!("{} {}", nm, e[i].0), || {
        let a = api::<C>();
        let mut m = tt.0.clone(); (e[i].1)(&mut m, &tt.1);
        if m == tt.0 { return Ok(0); }
        refused(a, &tt.2, &m, &e[i].0)?; Ok(1)
    }); });
}

/// Provers that follow the algebra with values violating the statement: every choice of h1, h2 over the alphabet and of z.
const ZS: [&str; 6] = ["from 1, wherever it ends", "scaled to end in 1", "from 1, last value forced to 1", "all ones", "all zero", "first value forced to 1, ending in 1"];
fn cheat<C: Hx>(p: &mut Prover<C>, f: &[S<C>], t: &[S<C>], h1: &[S<C>], h2: &[S<C>], zk: usize) -> Result<Vec<usize>, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let n = p.g.n;
    p.values(0, f, true); p.values(1, t, false); p.values(2, h1, true); p.values(3, h2, true);
    let one = f1::<S<C>>();
    let mut z = match zk { 3 => vec![one; n + 1], 4 => vec![S::<C>::ZERO; n + 1], _ => p.grand(one)? };
    match zk { 1 | 5 => { let k = z[n]; if k.is_zero() { return Err("zero".into()); } for x in &mut z { *x = *x / k; } if zk == 5 { z[0] = one; } } 2 => z[n] = one, _ => {} }
    p.values(4, &z, true);
    let t = p.terms()?;
    let b = p.broken(&t);
    p.quotient(&t)?;
    Ok(b)
}
fn forgeries<C: Hx>(ctx: &'static Ctx, n: usize, stride: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    // n lookups in n + 1 table entries; x is foreign.
    let t = table::<S<C>>(1, n + 1);
    let x = generic::<S<C>>(8000);
    let fs: Vec<Vec<S<C>>> = if n == 1 { vec![vec![x], vec![t[0]]] } else { vec![vec![x; n], (0..n).map(|i| if i == 1 { x } else { t[0] }).collect(), (0..n).map(|i| t[i]).collect()] };
    // Candidate (h1, h2): everything over {t0, t1, x} for n = 1; otherwise the sorted honest list, shapes which leave one equation true, and all single changes.
    let mut hs: Vec<(Vec<S<C>>, Vec<S<C>>)> = vec![];
    if n == 1 { let al = vec![t[0], t[1], x]; for i in lists(3, 4) { let v: Vec<S<C>> = i.iter().map(|k| al[*k]).collect(); hs.push((v[..2].to_vec(), v[2..].to_vec())); } }
    else {
        let sorted: Vec<S<C>> = { let mut s = vec![]; for (i, y) in t.iter().enumerate() { s.push(*y); if i < n { s.push(*y); } } s };
        hs.push((sorted[..n + 1].to_vec(), sorted[n..].to_vec()));
        hs.push((t.clone(), vec![x; n + 1])); hs.push((vec![x; n + 1], t.clone())); hs.push((t.clone(), t.clone())); hs.push((t.clone(), vec![t[n]; n + 1])); hs.push((vec![t[0]; n + 1], t.clone()));
        let mut s2 = vec![x; n]; s2.extend(t.iter().cloned()); hs.push((s2[..n + 1].to_vec(), s2[n..].to_vec()));
        let mut s3 = t.clone(); s3.extend(vec![x; n]); hs.push((s3[..n + 1].to_vec(), s3[n..].to_vec()));
        for i in 0..2 * n + 1 { let mut s = sorted.clone(); s[i] = x; hs.push((s[..n + 1].to_vec(), s[n..].to_vec())); }
    }
    let mut items = vec![];
    for f in 0..fs.len() { for h in 0..hs.len() { for z in 0..ZS.len() { items.push((f, h, z)); } } }
    let items: Vec<_> = items.into_iter().enumerate().filter(|(i, _)| i % stride == 0).map(|x| x.1).collect();
    let g = std::sync::Arc::new(Sh(gens::<C>(n)));
    ctx.par(items, move |&(f, h, z)| { ctx.bulk("algebraic forgeries", &format!("{} n = {} f {} h {} z {}", C::CNAME, n, f, h, ZS[z]), || {
        let a = api::<C>();
        let mut cnt = 0;
        let mut fv = fs[f].clone(); fv.push(S::<C>::ZERO);
        let legit = fs[f].iter().all(|y| t.contains(y));
        for how in 0..3 {
            let mut p = Prover::<C>::new(&g, a, (f * 100000 + h * 100 + z * 10 + how) as u64);
            let b = match cheat(&mut p, &fv, &t, &hs[h].0, &hs[h].1, z) { Ok(b) => b, Err(_) => continue };
            ensure!(legit || !b.is_empty(), "the model lets a foreign value through");
            if b.is_empty() { if how > 0 { break; } p.open()?; p.ipa(false)?; (a.verify)(&t, &p.m).map_err(|e| format!("a consistent proof is not accepted: {}", e))?; cnt += 1; continue; }
            p.open()?;
            match how {
                0 => p.ipa(false)?,                                                      // true openings
                1 => { p.m.o[5][0] = p.expected()?; p.ipa(false)? }                      // the quotient's opening made to fit, argument for the true one
                _ => { p.m.o[5][0] = p.expected()?; p.ipa(true)? }                       // and a final point that makes the last equation hold
            }
            cnt += 1;
            ensure!((a.verify)(&t, &p.m).is_err(), "accepted although {:?} of [start, recurrence, overlap, end] do not vanish (attempt {})", b, how);
        }
        Ok(cnt)
    }); });
}
/// Were gamma the same challenge as beta, the grand product would only compare polynomials in beta: a foreign value whose two sides then have the same factors.
fn one_challenge<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("foreign values that two independent challenges are needed for", C::CNAME, || {
        let a = api::<C>();
        let g = gens::<C>(1);
        let one = f1::<S<C>>();
        let mut cnt = 0;
        for k in 0..6u64 {
            let (r1, r2) = (generic::<S<C>>(3000 + k), generic::<S<C>>(3100 + k));
            let t = vec![r1 * r2, -one - r1 - r2];
            let f = r1 / r2;
            // gamma = beta; gamma = -beta; gamma constant zero or one: each with the multisets it would let through.
            let hs = match k % 3 { 0 => (vec![-r1, -r1], vec![-f * r2, f - r2 - one]), 1 => (vec![f, f], t.clone()), _ => (t.clone(), vec![f, f]) };
            for z in 0..3 { for bogus in 0..2 {
                let mut p = Prover::<C>::new(&g, a, 5000 + k * 10 + z as u64);
                let b = match cheat(&mut p, &[f, S::<C>::ZERO], &t, &hs.0, &hs.1, z) { Ok(b) => b, Err(_) => continue };
                p.open()?; if bogus == 1 { p.m.o[5][0] = p.expected()?; } p.ipa(false)?;
                cnt += 1;
                ensure!((a.verify)(&t, &p.m).is_err(), "accepted, all but {:?} of [start, recurrence, overlap, end] vanish", b);
            } }
        }
        Ok(cnt)
    });
}
/// False openings of consistent commitments, one at a time, with and without a fitted final point.
fn false_openings<C: Hx>(ctx: &'static Ctx, n: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let g = std::sync::Arc::new(Sh(gens::<C>(n)));
    let mut items = vec![];
    for i in 0..6 { for k in 0..2 { for bogus in 0..2 { items.push((i, k, bogus == 1)); } } }
    ctx.par(items, move |&(i, k, bogus)| { ctx.bulk("false openings", &format!("{} n = {} {} {} bogus {}", C::CNAME, n, NAMES[i], k, bogus), || {
        let a = api::<C>();
        let t = table::<S<C>>(1, n + 1);
        let mut s = vec![]; for (j, y) in t.iter().enumerate() { s.push(*y); if j < n { s.push(*y); } }
        let mut f = t[..n].to_vec(); f.push(S::<C>::ZERO);
        let mut p = Prover::<C>::new(&g, a, (700 + i * 10 + k) as u64);
        let b = cheat(&mut p, &f, &t, &s[..n + 1], &s[n..], 0)?;
        ensure!(b.is_empty(), "the honest values do not satisfy {:?}", b);
        p.open()?;
        p.m.o[i][k] = p.m.o[i][k] + f1::<S<C>>();
        if i != 5 { p.m.o[5][0] = p.expected()?; }
        p.ipa(bogus)?;
        ensure!((a.verify)(&t, &p.m).is_err(), "accepted with a false opening");
        // And malformed points at every place, the rest consistent with them.
        if k == 0 { for kind in 0..4 {
            let names = ["the identity", "x + 1, off the curve", "y + 1, off the curve", "(0, 0) flagged as finite"];
            let one = <C::BaseField as Field>::ONE;
            let bad = |q: AffinePoint<C>| { let mut r = q; match kind { 0 => r = AffinePoint::ZERO, 1 => r.x = r.x + one, 2 => r.y = r.y + one, _ => { r.x = C::BaseField::ZERO; r.y = C::BaseField::ZERO } } r };
            let mut p = Prover::<C>::new(&g, a, (900 + i * 10 + kind) as u64);
            let go = || -> R {
                let one = f1::<S<C>>();
                p.values(0, &f, true); p.values(1, &t, false); p.values(2, &s[..n + 1], true); p.values(3, &s[n..], true);
                if i < 4 && !bogus { p.m.c[i] = bad(p.m.c[i]); }
                let z = p.grand(one)?; p.values(4, &z, true); if i == 4 && !bogus { p.m.c[4] = bad(p.m.c[4]); }
                let t = p.terms()?; p.quotient(&t)?; if i == 5 && !bogus { p.m.c[5] = bad(p.m.c[5]); }
                p.open()?; if bogus && i < 2 * 3 { p.fake = Some((i / 2, i % 2 == 0, bad(C::GENERATOR_AFFINE))); }
                p.ipa(false)
            };
            if bogus && i / 2 >= (2 * n + 2).trailing_zeros() as usize { continue; }
            let _ = catch(go);
            let r = catch(|| (a.verify)(&t, &p.m)).map_err(|e| format!("{} {}: panic: {}", if bogus { "cross term" } else { NAMES[i] }, names[kind], e))?;
            ensure!(r.is_err(), "{} {}: accepted", if bogus { "cross term" } else { NAMES[i] }, names[kind]);
        } }
        // A committed quotient that is a multiple of the right one, or off by a constant, everything else consistent.
        if i == 5 { for (d, e) in vec![(-f1::<S<C>>(), S::<C>::ZERO), (f1::<S<C>>() + f1(), S::<C>::ZERO), (S::<C>::ZERO, S::<C>::ZERO), (f1(), f1::<S<C>>()), (f1(), generic::<S<C>>(4))] {
            let mut p = Prover::<C>::new(&g, a, 990 + k as u64);
            cheat(&mut p, &f, &t, &s[..n + 1], &s[n..], 0)?;
            let mut q = pscale(&p.p[5].0, d); q[0] = q[0] + e;
            p.commit(5, q, true); p.open()?; p.ipa(bogus)?;
            ensure!((a.verify)(&t, &p.m).is_err(), "accepted with another quotient");
        } }
        Ok(if k == 0 { 5 } else { 1 })
    }); });
}
/// Every message moves every challenge drawn after it.
fn binding<C: Hx>(ctx: &'static Ctx, n: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let a = api::<C>();
    let t = table::<S<C>>(1, n + 1);
    let base = match (a.prove)(&t[..n], &t) { Ok(m) => m, Err(e) => { ctx.fail("setup/binding", &e); return; } };
    let k = slots(&mut base.clone()).len();
    ctx.par((0..k).collect(), move |&i| { let name = slots(&mut base.clone())[i].0.clone(); ctx.bulk("binding", &format!("{} n = {} {}", C::CNAME, n, name), || {
        let a = api::<C>();
        // Rank of the message: which challenges come after it.
        let rank = if i < 4 { 0 } else if i == 4 { 1 } else if i == 5 { 2 } else if i < 18 { 3 } else { 4 };
        let names = |m: &Msg<C>| -> Result<Vec<(usize, String, S<C>)>, String> {
            let c = (a.chal)(m)?;
            let mut v = vec![(1, "beta".to_string(), c.beta), (1, "gamma".to_string(), c.gamma), (2, "alpha".to_string(), c.alpha), (3, "zeta".to_string(), c.zeta), (4, "v".to_string(), c.v), (4, "u".to_string(), c.u), (4, "u_scaling".to_string(), c.u_scaling)];
            for (j, u) in c.us.iter().enumerate() { v.push((5 + j, format!("u_{}", j), u.square())); }
            v.push((90, "schnorr".into(), c.schnorr)); Ok(v)
        };
        let rounds = base.l.len();
        let rank = if rank < 4 { rank } else if i < 18 + rounds { 4 + i - 18 } else if i < 18 + 2 * rounds { 4 + i - 18 - rounds } else if name == "Schnorr R" { 50 } else { 100 };
        let want = names(&base)?;
        let mut cnt = 0;
        for d in 1..40u64 {
            let mut m = base.clone();
            match &mut slots(&mut m)[i].1 { Slot::E(x) => **x = **x + S::<C>::from_canonical_u64(d), Slot::P(x) => **x = (x.to_projective() + C::convert(S::<C>::from_canonical_u64(d)) * C::GENERATOR_PROJECTIVE).to_affine() }
            // The transcript has to be continued to see the later challenges: other L_j where needed.
            let got = match names(&m) { Ok(g) => g, Err(_) => {
                // Challenges before the rounds exist without them.
                let mut s = m.clone(); s.l.clear(); s.r.clear(); match names(&s) { Ok(g) => g, Err(_) => continue } } };
            for (r, nm, v) in &want { if let Some(x) = got.iter().find(|x| &x.1 == nm) { if nm == "schnorr" && got.len() != want.len() { continue; }
                if *r > rank { ensure!(x.2 != *v, "{} is not bound to {}", nm, name); } else { ensure!(x.2 == *v, "{} depends on the later message {}", nm, name); } cnt += 1; } }
            if got.len() == want.len() && cnt > 0 { break; }
        }
        ensure!(cnt > 0, "no alteration could be evaluated");
        Ok(cnt)
    }); });
}
fn main() {
    run("C23", "exploration", "distinct = one (table, list of lookups), one altered proof, one forged proof or one message alteration", |ctx| {
        // All lists over small tables up to a length, and every length around each domain size for larger ones.
        let mut cases = vec![];
        let deep = ctx.tier(0, 1);
        for k in 0..3 { for (n, len) in vec![(1, 4), (2, 3), (3, 3 + deep), (4, 2 + deep)] { for l in 0..=len { if k > 0 && l == len && deep == 0 { continue; } for i in lists(n, l) { cases.push((k, n, i)); } } } }
        for n in vec![1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17] { for l in vec![1usize, 2, 3, 4, 6, 7, 8, 14, 15, 16, 31] { if deep == 0 && (n + l) % 2 == 0 && n > 5 { continue; } cases.push((l % 3, n, (0..l).map(|i| (i * i + l) % n).collect())); } }
        complete::<Tweedledee>(ctx, cases);
        let few: Vec<(usize, usize, Vec<usize>)> = (1..6).flat_map(|n| (0..4).map(move |l| (n % 3, n, (0..l).map(|i| (i * 2 + 1) % n).collect()))).collect();
        complete::<Tweedledum>(ctx, few.clone()); complete::<Pallas>(ctx, few.clone()); complete::<Vesta>(ctx, few);
        foreign::<Tweedledee>(ctx, 2, 3); foreign::<Vesta>(ctx, 3, 2);
        altered::<Tweedledee>(ctx, 3, 2); altered::<Pallas>(ctx, 2, 1);
        if ctx.thorough { altered::<Tweedledum>(ctx, 5, 4); altered::<Vesta>(ctx, 8, 7); }
        forgeries::<Tweedledee>(ctx, 1, ctx.tier(7, 1)); forgeries::<Pallas>(ctx, 3, ctx.tier(7, 1));
        if ctx.thorough { forgeries::<Tweedledum>(ctx, 7, 1); forgeries::<Vesta>(ctx, 1, 1); }
        one_challenge::<Tweedledee>(ctx); one_challenge::<Vesta>(ctx);
        false_openings::<Tweedledee>(ctx, 3); if ctx.thorough { false_openings::<Vesta>(ctx, 7); }
        binding::<Tweedledee>(ctx, 3); binding::<Vesta>(ctx, 1);
    });
}
