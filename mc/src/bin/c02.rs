//! C02: inversion, division, powers, roots, batch inversion, subgroups.
use mc::alpha::*;
use mc::refm::{self, B};
use mc::*;
use num::Integer;
use plonky::*;

fn good<F: Fx>(r: F, want: &B, what: &dyn Fn() -> String) -> R {
    if !r.reduced() { return Err(format!("{}: {} not reduced: {:x?}", F::NAME, what(), r.raw())); }
    if &r.val() != want { return Err(format!("{}: {} = {}, expected {}", F::NAME, what(), r.val(), want)); }
    Ok(())
}

fn field<F: Fx>(ctx: &'static Ctx) {
    let un: Vec<F> = raw_unary::<F>();
    let step = ctx.tier(2, 1);
    let inv_ops: Vec<F> = un.iter().cloned().step_by(step).collect();
    // Inverses, both for the raw and the canonical boundary patterns; powers of two and their inverses make the
    // Euclid loop take its longest and most one-sided paths.
    let mut extra: Vec<F> = vec![];
    let p = F::order();
    for k in 0..p.bits() as usize {
        let t = num::pow(refm::b(2), k) % &p;
        for d in [refm::b(0), refm::b(1), &p - 1u32].iter() {
            let x = (&t + d) % &p;
            extra.push(F::from_raw(&limbs(&x, F::W)));
            extra.push(F::from_raw(&limbs(&refm::neg(&x, &p), F::W)));
            if !is_zero(&x) { extra.push(F::from_raw(&limbs(&refm::inv(&x, &p), F::W))); }
        }
    }
    let mut all = inv_ops.clone(); all.extend(extra);
    ctx.par(all.chunks(256).map(|c| c.to_vec()).enumerate().collect(), move |(i, c): &(usize, Vec<F>)| {
        ctx.bulk("inverse", &format!("{}-{}", F::NAME, i), || {
            let p = F::order();
            for a in c {
                let av = a.val();
                match a.multiplicative_inverse() {
                    None => ensure!(is_zero(&av), "{}: no inverse reported for limbs {:x?}", F::NAME, a.raw()),
                    Some(r) => {
                        ensure!(!is_zero(&av), "{}: inverse {} reported for zero", F::NAME, r);
                        ensure!(r.reduced(), "{}: inverse of {:x?} not reduced", F::NAME, a.raw());
                        ensure!(refm::mul(&r.val(), &av, &p) == refm::b(1), "{}: inverse of limbs {:x?} is {}", F::NAME, a.raw(), r);
                        ensure!(a.multiplicative_inverse_assuming_nonzero() == r, "inverse variants differ on {:x?}", a.raw());
                    }
                }
            }
            Ok(c.len() as u64)
        });
    });
    // Division over all pairs of the small alphabet.
    let sm: Vec<F> = { let mut v = small::<F>(); for i in 0..ctx.tier(15, 60) { v.push(generic(i)); } v };
    {
        let sm = sm.clone();
        ctx.par((0..sm.len()).collect(), move |i: &usize| {
            ctx.bulk("division", &format!("{}-{}", F::NAME, i), || {
                let p = F::order();
                let a = sm[*i];
                for b in &sm {
                    if b.is_zero() { ensure!(catch(|| a / *b).is_err(), "{}: {} / 0 returned a value", F::NAME, a); continue; }
                    good(a / *b, &refm::mul(&a.val(), &refm::inv(&b.val(), &p), &p), &|| format!("{} / {}", a, b))?;
                }
                Ok(sm.len() as u64)
            });
        });
    }
    // Powers: bases x exponents, exponents at every bit length and limb boundary.
    let bases: Vec<F> = vec![F::ZERO, <F as Field>::ONE, F::TWO, F::NEG_ONE, generic(7), F::from_raw(&limbs(&(&p - 1u32), F::W)), F::of(&(&p >> 1usize))];
    let exps: Vec<B> = {
        let mut e = values::<F>();
        for k in 0..p.bits() as usize { let t = num::pow(refm::b(2), k); for j in [0usize, 1, 63, 64, 65].iter() { if *j < k { let x = &t + num::pow(refm::b(2), *j); if x < p { e.push(x); } } } }
        for i in 0..20 { e.push(generic::<F>(300 + i).val()); }
        e.sort(); e.dedup(); e
    };
    ctx.par(exps.chunks(16).map(|c| c.to_vec()).enumerate().collect(), move |(i, c): &(usize, Vec<B>)| {
        ctx.bulk("powers", &format!("{}-{}", F::NAME, i), || {
            let p = F::order();
            let mut n = 0;
            for e in c {
                for a in &bases {
                    let want = refm::pw(&a.val(), e, &p);
                    good(a.exp(F::of(e)), &want, &|| format!("{}^{}", a, e))?;
                    n += 1;
                    if let Some(u) = num::ToPrimitive::to_u32(e) { good(a.exp_u32(u), &want, &|| format!("{}^{} (u32)", a, e))?; n += 1; }
                    if let Some(u) = num::ToPrimitive::to_u64(e) { good(a.exp_usize(u as usize), &want, &|| format!("{}^{} (usize)", a, e))?; n += 1; }
                }
            }
            Ok(n)
        });
    });
    // Small exponents exhaustively, including u32 and usize entry points.
    ctx.bulk("small-powers", F::NAME, || {
        let p = F::order();
        let mut n = 0;
        for a in [F::ZERO, F::THREE, generic(9)].iter() {
            let mut want = refm::b(1);
            for e in 0..600u32 {
                good(a.exp_u32(e), &want, &|| format!("{}^{}", a, e))?;
                good(a.exp_usize(e as usize), &want, &|| format!("{}^{}", a, e))?;
                want = refm::mul(&want, &a.val(), &p);
                n += 2;
            }
        }
        Ok(n)
    });
    // k-th roots for every k up to a bound that permutes the field, and a few large ones.
    let mut ks: Vec<B> = (1..ctx.tier(60u32, 400)).map(B::from).collect();
    ks.push(B::from(65537u32)); ks.push(B::from(99991u32));
    ks.push(F::ALPHA.val());
    ks.retain(|k| num::Integer::gcd(k, &(&p - 1u32)) == refm::b(1) && !is_zero(k));
    let rb: Vec<F> = { let mut v = small::<F>(); v.push(generic(21)); v };
    ctx.par(ks, move |k: &B| {
        ctx.bulk("kth-root", &format!("{}-{}", F::NAME, k), || {
            let p = F::order();
            for a in &rb {
                let r = a.kth_root(F::of(k));
                ensure!(r.reduced() && refm::pw(&r.val(), k, &p) == a.val(), "{}: {}-th root of {} is {}", F::NAME, k, a, r);
                if let Some(u) = num::ToPrimitive::to_u32(k) { ensure!(a.kth_root_u32(u) == r, "kth_root_u32({}) differs", u); }
            }
            Ok(rb.len() as u64)
        });
    });
    // Square roots: elements of every two-adic order times odd parts, plus boundary values.
    let two = F::TWO_ADICITY;
    let mut sq: Vec<F> = small::<F>();
    for i in 0..ctx.tier(40, 300) { sq.push(generic::<F>(500 + i)); sq.push(generic::<F>(500 + i).square()); }
    for i in 0..ctx.tier(200u64, 2000) { sq.push(F::u(i)); sq.push(F::of(&refm::neg(&refm::b(i), &p))); }
    // g^T by reference, from a non-residue found by reference.
    let mut nr = refm::b(2);
    while refm::pw(&nr, &(&p >> 1usize), &p) == refm::b(1) { nr += 1u32; }
    let t = { let mut t = &p - 1u32; while t.is_even() { t = t >> 1usize; } t };
    let z = refm::pw(&nr, &t, &p);
    let mut zk = z.clone();
    let mut pows = vec![];
    for _ in 0..=two { pows.push(zk.clone()); zk = refm::mul(&zk, &zk, &p); }
    for (j, w) in pows.iter().enumerate() {
        sq.push(F::of(w));
        sq.push(F::of(&refm::mul(w, &refm::pw(&refm::b(3 + j as u64), &num::pow(refm::b(2), two), &p), &p)));
        for w2 in pows.iter().step_by(5) { sq.push(F::of(&refm::mul(w, w2, &p))); }
    }
    ctx.par(sq.chunks(32).map(|c| c.to_vec()).enumerate().collect(), move |(i, c): &(usize, Vec<F>)| {
        ctx.bulk("square-root", &format!("{}-{}", F::NAME, i), || {
            let p = F::order();
            for a in c {
                let av = a.val();
                let qr = is_zero(&av) || refm::pw(&av, &(&p >> 1usize), &p) == refm::b(1);
                ensure!(a.is_quadratic_residue() == qr, "{}: is_quadratic_residue({}) = {}", F::NAME, a, !qr);
                match a.square_root() {
                    None => ensure!(!qr, "{}: no square root reported for the residue {}", F::NAME, a),
                    Some(r) => {
                        ensure!(qr && r.reduced() && refm::mul(&r.val(), &r.val(), &p) == av, "{}: square root of {} reported as {}", F::NAME, a, r);
                        ensure!(a.square_root() == Some(r), "square root of {} is not deterministic", a);
                    }
                }
            }
            Ok(c.len() as u64)
        });
    });
    // Batch inversion: every zero/non-zero pattern up to a length, plus long batches.
    let maxlen = ctx.tier(7usize, 11);
    ctx.bulk("batch-inverse", F::NAME, || {
        let p = F::order();
        let mut n = 0;
        for len in 0..=maxlen {
            for pat in 0..(1u32 << len) {
                let x: Vec<F> = (0..len).map(|i| if pat >> i & 1 == 1 { generic::<F>((len * 64 + i) as u64) } else { F::ZERO }).collect();
                let r = <F as Field>::batch_multiplicative_inverse_opt::<F>(&x);
                ensure!(r.len() == len, "{}: batch of {} gave {}", F::NAME, len, r.len());
                for i in 0..len {
                    match r[i] {
                        None => ensure!(x[i].is_zero(), "{}: entry {} of pattern {:b} (len {}) has no inverse", F::NAME, i, pat, len),
                        Some(v) => ensure!(!x[i].is_zero() && v.reduced() && refm::mul(&v.val(), &x[i].val(), &p) == refm::b(1), "{}: entry {} of pattern {:b} (len {})", F::NAME, i, pat, len),
                    }
                }
                if pat == (1 << len) - 1 {
                    let r = <F as Field>::batch_multiplicative_inverse::<F>(&x);
                    ensure!(r.len() == len, "batch length");
                    for i in 0..len { ensure!(refm::mul(&r[i].val(), &x[i].val(), &p) == refm::b(1), "{}: batch entry {} of {}", F::NAME, i, len); }
                }
                n += 1;
            }
        }
        for len in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 1024, 2000].iter() {
            // boundary values, repeated entries and entries whose running product passes through one
            for kind in 0..3u64 {
                let x: Vec<F> = (0..*len).map(|i| match kind { 0 => generic::<F>(i as u64), 1 => [<F as Field>::ONE, F::NEG_ONE, F::TWO][i % 3], _ => if i % 2 == 0 { generic::<F>(i as u64 / 2) } else { F::of(&refm::inv(&generic::<F>(i as u64 / 2).val(), &p)) } }).collect();
                let r = <F as Field>::batch_multiplicative_inverse::<F>(&x);
                let o = <F as Field>::batch_multiplicative_inverse_opt::<F>(&x);
                ensure!(r.len() == *len && o.len() == *len, "batch length");
                for i in 0..*len { ensure!(refm::mul(&r[i].val(), &x[i].val(), &p) == refm::b(1) && o[i] == Some(r[i]), "{}: batch entry {} of {} kind {}", F::NAME, i, len, kind); }
                n += 1;
            }
        }
        Ok(n)
    });
    ctx.case("batch-zero", F::NAME, || {
        for len in 1..5usize { for z in 0..len {
            let mut x: Vec<F> = (0..len).map(|i| generic(i as u64)).collect(); x[z] = F::ZERO;
            ensure!(catch(|| <F as Field>::batch_multiplicative_inverse::<F>(&x)).is_err(), "{}: batch with a zero at {} of {} returned values", F::NAME, z, len);
        } }
        Ok(())
    });
    // Roots of unity and subgroups.
    let lim = ctx.tier(10, 14);
    ctx.bulk("roots-of-unity", F::NAME, || {
        let p = F::order();
        let mut n = 0;
        let mut prev: Option<B> = None;
        for k in 0..=F::TWO_ADICITY {
            let r = F::primitive_root_of_unity(k);
            let v = r.val();
            ensure!(r.reduced() && refm::pw(&v, &num::pow(refm::b(2), k), &p) == refm::b(1), "{}: root of unity of order 2^{} is not a root", F::NAME, k);
            if k > 0 { ensure!(refm::pw(&v, &num::pow(refm::b(2), k - 1), &p) == &p - 1u32, "{}: root of unity of order 2^{} is not primitive", F::NAME, k); }
            if let Some(q) = &prev { ensure!(&refm::mul(&v, &v, &p) == q, "{}: roots of order 2^{} and 2^{} are not compatible", F::NAME, k, k - 1); }
            prev = Some(v.clone());
            n += 1;
            if k <= lim {
                let g = F::cyclic_subgroup_known_order(r, 1 << k);
                let u = F::cyclic_subgroup_unknown_order(r);
                ensure!(g.len() == 1 << k && u == g, "{}: subgroup lists of order 2^{} differ", F::NAME, k);
                let mut c = refm::b(1);
                for x in &g { ensure!(x.val() == c, "{}: subgroup of order 2^{} is not the list of powers", F::NAME, k); c = refm::mul(&c, &v, &p); }
                ensure!(F::generator_order(r) == 1 << k, "{}: generator_order of 2^{}", F::NAME, k);
                for m in [0usize, 1, 2, 3, 5, (1 << k) + 1].iter() { ensure!(F::cyclic_subgroup_known_order(r, *m).iter().map(|x| x.val()).eq((0..*m).map(|i| refm::pw(&v, &B::from(i), &p))), "{}: first {} powers", F::NAME, m); }
            }
        }
        ensure!(catch(|| F::primitive_root_of_unity(F::TWO_ADICITY + 1)).is_err(), "{}: root of unity beyond the two-adicity", F::NAME);
        Ok(n)
    });
}

fn body(ctx: &'static Ctx) { all_fields!(field(ctx)); }
fn main() {
    run("C02", "exploration",
        "operands: raw and canonical boundary patterns, all powers of two (raw), their neighbours, negatives and inverses; exponents at every bit length and around limb boundaries; \
         square roots of elements of every two-adic order; every zero pattern of a batch up to a length; each distinct operand tuple is one non-trivial case, compared with big-integer modular arithmetic", body)
}
