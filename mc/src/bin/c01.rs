//! C01: ring arithmetic of the six fields against big integers.
use mc::alpha::*;
use mc::refm::{self, B};
use mc::*;
use plonky::*;
use std::collections::{HashSet, VecDeque};

fn chk<F: Fx>(r: F, want: &B, what: &dyn Fn() -> String) -> R {
    if !r.reduced() { return Err(format!("{}: {} result not reduced: limbs {:x?}", F::NAME, what(), r.raw())); }
    if &r.val() != want { return Err(format!("{}: {} = {}, expected {}", F::NAME, what(), r.val(), want)); }
    Ok(())
}

fn unary<F: Fx>(a: F, av: &B, p: &B) -> R {
    let w = |s: &'static str| move || format!("{} of limbs {:x?}", s, a.raw());
    chk(-a, &refm::neg(av, p), &w("neg"))?;
    let sq = refm::mul(av, av, p);
    chk(a.square(), &sq, &w("square"))?;
    chk(a * a, &sq, &w("a*a"))?;
    chk(a.cube(), &refm::mul(&sq, av, p), &w("cube"))?;
    chk(a.double(), &((av * 2u32) % p), &w("double"))?;
    chk(a.triple(), &((av * 3u32) % p), &w("triple"))?;
    chk(a.quadruple(), &((av * 4u32) % p), &w("quadruple"))?;
    chk(a + a, &((av * 2u32) % p), &w("a+a"))?;
    chk(a - a, &refm::b(0), &w("a-a"))?;
    chk(a + (-a), &refm::b(0), &w("a+(-a)"))?;
    for (k, c) in [F::ZERO, <F as Field>::ONE, F::TWO, F::THREE, F::FOUR, F::FIVE].iter().enumerate() {
        chk(a * *c, &((av * k) % p), &w("a*const"))?;
        chk(*c - a, &refm::sub(&refm::b(k as u64), av, p), &w("const-a"))?;
        chk(a - *c, &refm::sub(av, &refm::b(k as u64), p), &w("a-const"))?;
    }
    chk(a * F::NEG_ONE, &refm::neg(av, p), &w("a*-1"))?;
    ensure!(a.is_zero() == refm::Crv { p: p.clone(), a: refm::b(0), b: refm::b(0) }.on(&Some((av.clone(), refm::b(0)))) || av != &refm::b(0), "{}", w("is_zero")());
    ensure!(a.is_zero() == (av == &refm::b(0)) && a.is_nonzero() != a.is_zero() && a.is_one() == (av == &refm::b(1)), "{} predicates of limbs {:x?}", F::NAME, a.raw());
    Ok(())
}

fn binary<F: Fx>(a: F, b: F, av: &B, bv: &B, p: &B) -> R {
    let w = |s: &'static str| move || format!("{} of limbs {:x?} and {:x?}", s, a.raw(), b.raw());
    chk(a + b, &refm::add(av, bv, p), &w("add"))?;
    chk(a - b, &refm::sub(av, bv, p), &w("sub"))?;
    chk(a * b, &refm::mul(av, bv, p), &w("mul"))?;
    ensure!((a == b) == (av == bv), "{}: equality {}", F::NAME, w("==")());
    Ok(())
}

/// Raw-representation reference: Montgomery product x*y/R mod p, as integers.
fn field<F: Fx>(ctx: &'static Ctx) {
    let p = F::order();
    // Constants.
    ctx.case("constants", F::NAME, || {
        let p = F::order();
        for (n, c, v) in [("ZERO", F::ZERO, 0u64), ("ONE", <F as Field>::ONE, 1), ("TWO", F::TWO, 2), ("THREE", F::THREE, 3), ("FOUR", F::FOUR, 4), ("FIVE", F::FIVE, 5)].iter() {
            chk(*c, &refm::b(*v), &|| n.to_string())?;
        }
        chk(F::NEG_ONE, &(&p - 1u32), &|| "NEG_ONE".into())?;
        chk(F::default(), &refm::b(0), &|| "default".into())?;
        ensure!(p.bits() as usize == F::BITS, "{} BITS {}", F::NAME, F::BITS);
        ensure!(F::BYTES == 8 * F::W, "{} BYTES {}", F::NAME, F::BYTES);
        let mut t = &p - 1u32; let mut k = 0;
        while &t % 2u32 == refm::b(0) { t = t / 2u32; k += 1; }
        ensure!(F::TWO_ADICITY == k, "{} TWO_ADICITY {} != {}", F::NAME, F::TWO_ADICITY, k);
        chk(F::T, &t, &|| "T".into())?;
        // ALPHA: x^ALPHA is a permutation, and it is the smallest such exponent above 1.
        let al = F::ALPHA.val();
        ensure!(al > refm::b(1) && num::Integer::gcd(&al, &(&p - 1u32)) == refm::b(1), "{} ALPHA {} does not give a permutation", F::NAME, al);
        // The generator is a non-residue for every small prime factor of p - 1.
        let g = F::MULTIPLICATIVE_SUBGROUP_GENERATOR.val();
        let mut m = &p - 1u32; let mut q = 2u64;
        while q < 200_000 {
            if &m % q == refm::b(0) {
                while &m % q == refm::b(0) { m = m / q; }
                ensure!(g.modpow(&((&p - 1u32) / q), &p) != refm::b(1), "{} generator {} has an order dividing (p-1)/{}", F::NAME, g, q);
            }
            q += 1;
        }
        Ok(())
    });
    // Unary operations on a large alphabet of raw representations.
    let un: Vec<F> = raw_unary::<F>();
    let chunks: Vec<Vec<F>> = un.chunks(512).map(|c| c.to_vec()).collect();
    ctx.par(chunks.into_iter().enumerate().collect(), move |(i, c): &(usize, Vec<F>)| {
        ctx.bulk("unary", &format!("{}-{}", F::NAME, i), || {
            let p = F::order();
            for a in c { unary(*a, &a.val(), &p)?; }
            Ok(c.len() as u64)
        });
    });
    // Binary operations: all pairs of the pair alphabet.
    let pr: Vec<F> = raw_pairs::<F>(ctx.tier(500, 2500));
    let n = pr.len();
    ctx.note(format!("{}: {} unary operands, {} pair operands", F::NAME, un.len(), n));
    let pv: std::sync::Arc<Vec<(F, B)>> = std::sync::Arc::new(pr.iter().map(|x| (*x, x.val())).collect());
    {
        let pv = pv.clone();
        ctx.par((0..n).collect(), move |i: &usize| {
            ctx.bulk("pairs", &format!("{}-{}", F::NAME, i), || {
                let p = F::order();
                let (a, av) = &pv[*i];
                for (b, bv) in pv.iter() { binary(*a, *b, av, bv, &p)?; }
                Ok(pv.len() as u64)
            });
        });
    }
    // Pairs whose exact result sits on a boundary: b chosen from a and the target result.
    let step = ctx.tier(6, 1);
    let targets: Vec<B> = {
        let mut t = vec![];
        let top = limbs(&p, F::W);
        for k in 0..4u32 { t.push(refm::b(k as u64)); t.push(&p - 1u32 - k); }
        for i in 1..F::W { for d in 0..2u32 { let e = num::pow(refm::b(2), 64 * i); t.push(&e - d); t.push((&p - &e) + d); t.push(&p / &e * &e); if &p / &e * &e + (&e - 1u32) < p { t.push(&p / &e * &e + (&e - 1u32)); } } }
        for i in 0..F::W { let mut l = top.clone(); if l[i] > 0 { l[i] -= 1; t.push(big(&l)); for j in 0..i { l[j] = u64::max_value(); } t.push(big(&l)); } }
        t.retain(|x| x < &p); t.sort(); t.dedup(); t
    };
    let sub: Vec<F> = un.iter().cloned().step_by(step).collect();
    ctx.par(sub.chunks(64).map(|c| c.to_vec()).enumerate().collect(), move |(i, c): &(usize, Vec<F>)| {
        ctx.bulk("boundary-results", &format!("{}-{}", F::NAME, i), || {
            let p = F::order();
            let mut n = 0;
            for a in c {
                let ar = big(&a.raw());
                let av = a.val();
                for t in &targets {
                    // Raw results equal to t: a + b = t, a - b = t, and (Montgomery) a*b/R = t.
                    let b1 = F::from_raw(&limbs(&refm::sub(t, &ar, &p), F::W));
                    binary(*a, b1, &av, &b1.val(), &p)?;
                    let b2 = F::from_raw(&limbs(&refm::sub(&ar, t, &p), F::W));
                    binary(*a, b2, &av, &b2.val(), &p)?;
                    n += 2;
                }
                if !is_zero(&ar) {
                    let ai = refm::inv(&av, &p);
                    for t in &targets {
                        let b3 = F::of(&refm::mul(&F::from_raw(&limbs(t, F::W)).val(), &ai, &p));
                        binary(*a, b3, &av, &b3.val(), &p)?;
                        n += 1;
                    }
                }
            }
            Ok(n)
        });
    });
    // Slice helpers: all short lists over a small alphabet.
    let sm = small::<F>();
    ctx.par((0..sm.len()).collect(), move |i: &usize| {
        ctx.bulk("slices", &format!("{}-{}", F::NAME, i), || {
            let p = F::order();
            let a = sm[*i];
            let mut n = 0;
            ensure!(a.scale_slice(&[]).is_empty() && F::add_slices(&[], &[]).is_empty(), "empty slices");
            chk(F::inner_product(&[], &[]), &refm::b(0), &|| "empty inner product".into())?;
            for b in &sm { for c in &sm { for d in [sm[1], sm[6], sm[8]].iter() {
                let x = [a, *b, *c]; let y = [*c, *d, a];
                let s = a.scale_slice(&y);
                let t = F::add_slices(&x, &y);
                ensure!(s.len() == 3 && t.len() == 3, "slice length");
                for k in 0..3 {
                    chk(s[k], &refm::mul(&a.val(), &y[k].val(), &p), &|| format!("scale_slice {:?} {:?}", a, y))?;
                    chk(t[k], &refm::add(&x[k].val(), &y[k].val(), &p), &|| format!("add_slices {:?} {:?}", x, y))?;
                }
                let ip = x.iter().zip(y.iter()).fold(refm::b(0), |s, (u, v)| refm::add(&s, &refm::mul(&u.val(), &v.val(), &p), &p));
                chk(F::inner_product(&x, &y), &ip, &|| format!("inner_product {:?} {:?}", x, y))?;
                n += 3;
            } } }
            Ok(n)
        });
    });
    // Operation histories: breadth-first from boundary seeds; the state is the (real, reference) pair, every
    // transition applies a real operation to real operands produced by earlier operations.
    let depth = ctx.tier(3, 5);
    let cap = ctx.tier(6_000usize, 60_000);
    ctx.bulk("histories", F::NAME, || {
        let p = F::order();
        let seeds: Vec<F> = vec![F::of(&(&p >> 1usize)), F::NEG_ONE, F::from_raw(&limbs(&(&p - 1u32), F::W)), F::of(&(num::pow(refm::b(2), 128) - 1u32)), F::TWO];
        let mut seen: HashSet<Vec<u64>> = seeds.iter().map(|s| s.raw()).collect();
        let mut q: VecDeque<(F, B, usize)> = seeds.iter().map(|s| (*s, s.val(), 0)).collect();
        let ops: Vec<(F, B)> = seeds.iter().map(|s| (*s, s.val())).collect();
        let mut n = 0u64;
        while let Some((x, xv, d)) = q.pop_front() {
            ctx.states(1);
            let mut outs: Vec<(F, B)> = vec![(-x, refm::neg(&xv, &p)), (x.square(), refm::mul(&xv, &xv, &p)), (x.double(), (&xv * 2u32) % &p), (x.triple(), (&xv * 3u32) % &p), (x.quadruple(), (&xv * 4u32) % &p)];
            for (o, ov) in &ops {
                outs.push((x + *o, refm::add(&xv, ov, &p)));
                outs.push((x - *o, refm::sub(&xv, ov, &p)));
                outs.push((*o - x, refm::sub(ov, &xv, &p)));
                outs.push((x * *o, refm::mul(&xv, ov, &p)));
            }
            for (r, rv) in outs {
                n += 1;
                ctx.transitions(1);
                chk(r, &rv, &|| format!("history operation on {:?}", x))?;
                if d + 1 < depth && seen.len() < cap && seen.insert(r.raw()) { q.push_back((r, rv, d + 1)); }
            }
        }
        if seen.len() >= cap { ctx.cap(format!("{}: histories stopped adding states at {}", F::NAME, cap)); }
        Ok(n)
    });
}

fn body(ctx: &'static Ctx) { all_fields!(field(ctx)); }
fn main() {
    run("C01", "exploration",
        "every operand is a distinct raw (Montgomery) representation from a per-limb boundary cross product, canonical boundary values, or operands solved so that the exact raw result is a boundary; \
         each evaluation compares the real result with big-integer arithmetic and checks that it is reduced; a case is non-trivial because its operand tuple is distinct from all others of its block", body)
}
