//! C07: polynomial arithmetic against schoolbook arithmetic.
use mc::alpha::*;
use mc::refm::*;
use mc::*;
use plonky::plonk_util::{eval_poly, powers, reduce_with_powers};
use plonky::polynomial::Polynomial;
use plonky::*;

type P<F> = Polynomial<F>;
fn pv<F: Fx>(q: &P<F>) -> Result<Vec<B>, String> {
    ensure!(q.coeffs().iter().all(|x| x.reduced()), "unreduced coefficient");
    Ok(ptrim(&q.coeffs().iter().map(|x| x.val()).collect::<Vec<_>>()))
}
fn mk<F: Fx>(v: &[B]) -> P<F> { P::from(v.iter().map(|x| F::of(x)).collect::<Vec<_>>()) }
fn sh(v: &[B]) -> String { if v.len() > 12 { format!("{} coefficients {:?}..", v.len(), &v[..4]) } else { format!("{:?}", v.iter().map(|x| if x.bits() > 16 { "#".to_string() } else { x.to_string() }).collect::<Vec<_>>()) } }

/// All lists over the letters up to a length (trailing zeros included: they are leading zero coefficients).
fn lists(al: &[B], maxlen: usize) -> Vec<Vec<B>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<B>> = vec![vec![]];
    for _ in 0..=maxlen {
        out.extend(cur.clone());
        cur = cur.into_iter().flat_map(|w| al.iter().map(move |a| { let mut v = w.clone(); v.push(a.clone()); v })).collect();
    }
    out
}

fn binary<F: Fx>(x: &[B], y: &[B], p: &B) -> Result<u64, String> {
    let (a, c) = (mk::<F>(x), mk::<F>(y));
    let (tx, ty) = (ptrim(x), ptrim(y));
    let e = |s: &str| format!("{}: {} of {} and {}", F::NAME, s, sh(x), sh(y));
    eq!(pv(&a.add(&c))?, ptrim(&padd(x, y, p)), "{}", e("sum"));
    eq!(pv(&a.mul(&c))?, ptrim(&pmul(x, y, p)), "{}", e("product"));
    ensure!((a == c) == (tx == ty), "{}", e("equality"));
    let mut n = 3;
    if !ty.is_empty() {
        let (q, r) = pdivrem(x, y, p);
        for (nm, (gq, gr)) in [("polynomial_division", a.polynomial_division(&c)), ("polynomial_long_division", a.polynomial_long_division(&c))].iter() {
            let (gq, gr) = (pv(gq)?, pv(gr)?);
            ensure!(gq == q && gr == r, "{}: quotient {} remainder {}, expected {} and {}", e(nm), sh(&gq), sh(&gr), sh(&q), sh(&r));
        }
        n += 2;
    }
    ensure!(pv(&a)? == tx && pv(&c)? == ty, "{}", e("operand changed by an operation"));
    Ok(n)
}

fn unary<F: Fx>(x: &[B], p: &B) -> Result<u64, String> {
    let a = mk::<F>(x);
    let t = ptrim(x);
    let e = |s: &str| format!("{}: {} of {}", F::NAME, s, sh(x));
    ensure!(a.len() == x.len() && a.is_empty() == x.is_empty() && a.is_zero() == t.is_empty(), "{}", e("len/is_empty/is_zero"));
    ensure!(a.coeffs().iter().map(|c| c.val()).eq(x.iter().cloned()) && a.iter().map(|c| c.val()).eq(x.iter().cloned()), "{}", e("coefficients"));
    if !t.is_empty() { ensure!(a.degree() == t.len() - 1, "{} is {}", e("degree"), a.degree()); }
    ensure!(a.lead().val() == t.last().cloned().unwrap_or(b(0)), "{}", e("lead"));
    let mut tr = a.clone(); tr.trim();
    ensure!(tr.len() == t.len() && tr == a, "{}", e("trim"));
    for l in t.len()..t.len() + 4 {
        let q = a.padded(l);
        let mut q2 = a.clone(); q2.pad(l);
        ensure!(q.len() == l && q == a && q2.coeffs() == q.coeffs(), "{} to {}", e("padding"), l);
    }
    ensure!(pv(&P::<F>::from_coeffs(a.coeffs()))? == t, "{}", e("from_coeffs"));
    let mut n = 6;
    for z in [b(0), b(1), b(2), p - 1u32, generic::<F>(21).val()].iter() {
        let f = F::of(z);
        let want = peval(x, z, p);
        ensure!(a.eval(f).val() == want, "{} at {}", e("eval"), z);
        ensure!(a.eval_from_power(&powers(f, x.len())).val() == want, "{} at {}", e("eval_from_power"), z);
        ensure!(eval_poly(a.coeffs(), f).val() == want, "{} at {}", e("eval_poly"), z);
        ensure!(reduce_with_powers(a.coeffs(), f).val() == want, "{} at {}", e("reduce_with_powers"), z);
        ensure!(powers(f, x.len() + 1).iter().map(|v| v.val()).eq((0..x.len() + 1).map(|i| pw(z, &B::from(i), p))), "{}", e("powers"));
        n += 5;
    }
    let mut k = 0; while 1 << k < x.len().max(1) { k += 1; }
    for k in k..k + 2 {
        let size = 1usize << k;
        let pre = fft_precompute::<F>(size);
        let w = F::primitive_root_of_unity(k).val();
        let ev = a.eval_domain(&pre);
        ensure!(ev.len() == size, "{}", e("eval_domain length"));
        for i in 0..size { ensure!(ev[i].val() == peval(x, &pw(&w, &B::from(i), p), p), "{} of size {} at {}", e("eval_domain"), size, i); }
        ensure!(pv(&P::from_evaluations(&ev, &pre))? == t, "{}", e("from_evaluations"));
        n += 2;
    }
    Ok(n)
}

fn z_h<F: Fx>(c: &[B], n: usize, p: &B) -> R {
    let mut z = vec![b(0); n + 1]; z[0] = p - 1u32; z[n] = b(1);
    let m = pmul(c, &z, p);
    for pad in [0usize, 1, 5].iter() {
        let mut mm = m.clone(); mm.resize(m.len() + pad, b(0));
        eq!(pv(&mk::<F>(&mm).divide_by_z_h(n))?, ptrim(c), "{}: ({}) * (X^{} - 1) divided by (X^{} - 1), padded by {}", F::NAME, sh(c), n, n, pad);
    }
    Ok(())
}

fn field<F: Fx>(ctx: &'static Ctx, part: usize, parts: usize) {
    let p = F::order();
    let three = vec![b(0), b(1), &p - 1u32];
    let all = lists(&three, ctx.tier(4, 5));
    let four = lists(&[b(0), b(1), b(2), generic::<F>(8).val()], 3);
    ctx.bulk("all pairs over {0,1,-1}", &format!("{} part {}", F::NAME, part), || {
        let mut n = 0;
        for x in all.iter().skip(part).step_by(parts) { for y in &all { n += binary::<F>(x, y, &p)?; } }
        Ok(n)
    });
    ctx.bulk("all pairs over {0,1,2,g}", &format!("{} part {}", F::NAME, part), || {
        let mut n = 0;
        for x in four.iter().skip(part).step_by(parts) { for y in &four { n += binary::<F>(x, y, &p)?; } }
        Ok(n)
    });
    ctx.bulk("unary", &format!("{} part {}", F::NAME, part), || {
        let mut n = 0;
        for x in all.iter().chain(four.iter()).skip(part).step_by(parts) { n += unary::<F>(x, &p)?; }
        Ok(n)
    });
    ctx.bulk("degree shapes", &format!("{} part {}", F::NAME, part), || {
        let mut n = 0;
        let kinds: Vec<Box<dyn Fn(usize) -> Vec<B>>> = vec![
            Box::new(|d| (0..=d).map(|i| generic::<F>((i * 3 + d) as u64).val()).collect()),
            Box::new(|d| { let mut v = vec![b(0); d + 1]; v[d] = b(3); v }),
            Box::new(|d| { let mut v = vec![b(0); d + 1]; v[0] = b(7); v[d] = b(5); v.extend(vec![b(0); 3]); v }),
            Box::new(|d| (0..=d).map(|i| if i % 3 == d % 3 { b(i as u64 + 1) } else { b(0) }).collect()),
            Box::new(|d| (0..=d).map(|i| if i >= d / 2 { b(1) } else { b(0) }).collect()),
        ];
        let top = ctx.tier(20, 40);
        let mut idx = 0;
        for da in 0..top { for db in 0..top { for ka in 0..kinds.len() { for kb in 0..kinds.len() {
            idx += 1;
            if idx % parts != part || (!ctx.thorough && idx / parts % 3 != 0) { continue; }
            n += binary::<F>(&kinds[ka](da), &kinds[kb](db), &p)?;
        } } } }
        // products and quotients that are exact, and remainders of every degree
        for da in 1..12usize { for db in 1..8usize { for dr in 0..db {
            if (da * 8 + db) % parts != part { continue; }
            let (x, y) = (kinds[3](da), kinds[0](db));
            let m = padd(&pmul(&x, &y, &p), &kinds[dr % 5](dr)[..(dr + 1).min(db)].to_vec(), &p);
            n += binary::<F>(&m, &y, &p)?;
        } } }
        if part == 0 {
            for (la, lb) in [(63usize, 64usize), (64, 64), (65, 1), (128, 127), (200, 56), (255, 2), (256, 256), (300, 100)].iter() {
                for (ka, kb) in [(0, 0), (2, 0), (0, 2), (4, 3), (1, 1)].iter() { n += binary::<F>(&kinds[*ka](*la), &kinds[*kb](*lb), &p)?; }
            }
        }
        Ok(n)
    });
    ctx.bulk("division by X^n - 1", &format!("{} part {}", F::NAME, part), || {
        let mut n = 0;
        let ns: Vec<usize> = (1..=20).chain(vec![31, 32, 33, 64, 100, 128]).collect();
        for m in ns.iter().skip(part).step_by(parts) {
            for c in all.iter().step_by(if *m > 20 { 7 } else { ctx.tier(5, 2) }).chain(four.iter().step_by(3)) { z_h::<F>(c, *m, &p)?; n += 3; }
            for d in 1..24usize { z_h::<F>(&(0..d).map(|i| generic::<F>((i + d) as u64).val()).collect::<Vec<_>>(), *m, &p)?; n += 3; }
        }
        Ok(n)
    });
    if part == 0 { ctx.case("zero and empty", F::NAME, || {
        ensure!(P::<F>::empty().is_empty() && P::<F>::empty().is_zero() && P::<F>::empty() == P::zero(4) && P::<F>::zero(4).len() == 4, "empty/zero");
        for z in [P::<F>::empty(), P::zero(1), P::zero(3)].iter() {
            ensure!(catch(|| mk::<F>(&[b(1), b(2)]).polynomial_division(z)).is_err() && catch(|| mk::<F>(&[b(1), b(2)]).polynomial_long_division(z)).is_err(), "division by zero returned a value");
            ensure!(z.divide_by_z_h(8).is_zero(), "zero divided by X^8 - 1");
        }
        // indexing and mutation
        let mut q = mk::<F>(&[b(1), b(2), b(3)]);
        q[1] = F::FIVE;
        for x in q.iter_mut() { *x = *x + <F as Field>::ONE; }
        eq!(pv(&q)?, vec![b(2), b(6), b(4)], "index and iter_mut");
        eq!(q[1..].iter().map(|x| x.val()).collect::<Vec<_>>(), vec![b(6), b(4)], "range index");
        Ok(())
    }); }
}

fn main() {
    run("C07", "exploration", "ordered pairs of all coefficient lists over two small letter sets to a length (leading zeros included), pairs of degree shapes, exact products with every remainder degree, multiples of X^n - 1", |ctx| {
        let mut fs: Vec<Box<dyn Fn() + Send + Sync>> = vec![];
        for part in 0..8 { fs.push(Box::new(move || field::<TweedledeeBase>(ctx, part, 8))); }
        for part in 0..8 { fs.push(Box::new(move || field::<Bls12377Scalar>(ctx, part, 8))); }
        if ctx.thorough { for part in 0..8 { fs.push(Box::new(move || field::<PallasBase>(ctx, part, 8))); fs.push(Box::new(move || field::<Bls12377Base>(ctx, part, 8))); } }
        ctx.par(fs, move |f| f());
    })
}
