//! C03: canonical conversions, ordering and bit lengths.
use mc::alpha::*;
use mc::refm::B;
use mc::*;
use plonky::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Integers around every power of two, every limb and word boundary, and around the orders of all fields, up to 2^(64 w).
fn ints<F: Fx>() -> Vec<B> {
    let one = || B::from(1u32);
    let top = one() << (64 * F::W);
    let mut v = values::<F>();
    for k in 0..=64 * F::W { for d in 0..3u32 { v.push((one() << k) + d); if (one() << k) >= B::from(d) { v.push((one() << k) - d); } } }
    for o in [PallasBase::order(), VestaBase::order(), TweedledeeBase::order(), TweedledumBase::order(), Bls12377Scalar::order(), Bls12377Base::order()].iter() {
        for m in 1..5u32 { for d in 0..3u32 { v.push(o * m + d); v.push(o * m - d); } }
        // differ from the order in exactly one limb
        let l = limbs(o, 6);
        for i in 0..F::W { for x in [l[i].wrapping_sub(1), l[i].wrapping_add(1), 0, u64::max_value(), l[i] ^ (1 << 63), l[i] ^ 1].iter() {
            let mut m = l.clone(); m[i] = *x; v.push(big(&m[..F::W]));
        } }
        // one limb above, another below
        for i in 0..F::W { for j in 0..F::W { if i != j { let mut m = l.clone(); m[i] = m[i].wrapping_add(1); m[j] = m[j].wrapping_sub(1); v.push(big(&m[..F::W])); } } }
    }
    v.push(&top - 1u32);
    v.retain(|x| x < &top);
    v.sort(); v.dedup();
    v
}
fn bytes_le(x: &B, n: usize) -> Vec<u8> { let mut b = x.to_bytes_le(); b.resize(n, 0); b }

fn one_value<F: Fx>(x: &B) -> R {
    let p = F::order();
    let l = limbs(x, F::W);
    let by = bytes_le(x, 8 * F::W);
    let valid = x < &p;
    eq!(F::is_valid_canonical_u64(&l), valid, "{} is_valid_canonical_u64({:x})", F::NAME, x);
    let r = F::from_canonical_u8_vec(by.clone());
    ensure!(r.is_ok() == valid, "{}: from_canonical_u8_vec({:x}) -> {:?}", F::NAME, x, r.map(|v| v.raw()));
    if !valid { return Ok(()); }
    let e = F::of(x);
    ensure!(e.reduced() && &e.val() == x, "harness");
    eq!(r.unwrap().raw(), e.raw(), "{} from_canonical_u8_vec({:x})", F::NAME, x);
    eq!(e.to_canonical_u64_vec(), l, "{} to_canonical_u64_vec", F::NAME);
    eq!(F::from_canonical_u64_vec(l.clone()).raw(), e.raw(), "{} from_canonical_u64_vec({:x})", F::NAME, x);
    let w: Vec<u32> = (0..2 * F::W).map(|i| (l[i / 2] >> (32 * (i % 2))) as u32).collect();
    eq!(e.to_canonical_u32_vec(), w, "{} to_canonical_u32_vec", F::NAME);
    eq!(F::from_canonical_u32_vec(w).raw(), e.raw(), "{} from_canonical_u32_vec({:x})", F::NAME, x);
    eq!(e.to_canonical_u8_vec(), by, "{} to_canonical_u8_vec", F::NAME);
    let bits: Vec<bool> = (0..64 * F::W).map(|i| l[i / 64] >> (i % 64) & 1 == 1).collect();
    eq!(e.to_canonical_bool_vec(), bits, "{} to_canonical_bool_vec({:x})", F::NAME, x);
    eq!(e.num_bits() as u64, x.bits() as u64, "{} num_bits({:x})", F::NAME, x);
    eq!(field_to_biguint(e), x.clone(), "{} field_to_biguint", F::NAME);
    eq!(biguint_to_field::<F>(x.clone()).raw(), e.raw(), "{} biguint_to_field({:x})", F::NAME, x);
    eq!(format!("{}", e), x.to_string(), "{} Display", F::NAME);
    if x.bits() <= 64 {
        eq!(F::from_canonical_u64(l[0]).raw(), e.raw(), "{} from_canonical_u64", F::NAME);
        eq!(F::from_canonical_usize(l[0] as usize).raw(), e.raw(), "{} from_canonical_usize", F::NAME);
    }
    if x.bits() <= 32 { eq!(F::from_canonical_u32(l[0] as u32).raw(), e.raw(), "{} from_canonical_u32", F::NAME); }
    if x.bits() <= 1 { eq!(F::from_canonical_bool(l[0] == 1).raw(), e.raw(), "{} from_canonical_bool", F::NAME); }
    Ok(())
}

fn field<F: Fx>(ctx: &'static Ctx) {
    let vs = ints::<F>();
    ctx.bulk("conversions", F::NAME, || { for x in &vs { one_value::<F>(x)?; } Ok(vs.len() as u64) });
    ctx.bulk("conversions from arithmetic results", F::NAME, || {
        // the same integer reached through other representations of the computation
        let al = raw_pairs::<F>(8);
        let mut n = 0;
        for a in al.iter().step_by(3) { for b in al.iter().step_by(7) {
            for r in [*a + *b, *a * *b, *a - *b].iter() {
                let v = r.val();
                eq!(r.to_canonical_u64_vec(), limbs(&v, F::W), "{} canonical form of a result", F::NAME);
                eq!(field_to_biguint(*r), v, "{} field_to_biguint of a result", F::NAME);
                n += 1;
            }
        } }
        Ok(n)
    });
    // Lists of the wrong number of limbs are never valid.
    ctx.case("wrong length", F::NAME, || {
        for n in 0..=F::W + 2 {
            if n == F::W { continue; }
            for f in [0u64, 1, u64::max_value()].iter() {
                let v = vec![*f; n];
                ensure!(!F::is_valid_canonical_u64(&v), "{} accepts {} limbs", F::NAME, n);
                ensure!(F::from_canonical_u8_vec(vec![*f as u8; 8 * n]).is_err(), "{} reads {} bytes", F::NAME, 8 * n);
            }
        }
        Ok(())
    });
    // Ordering: all ordered pairs.
    let al: Vec<(F, B)> = {
        let mut v: Vec<B> = values::<F>();
        // same top limbs, contradictory low limbs
        let g: Vec<u64> = F::order().to_u32_digits().iter().take(1).map(|x| *x as u64).collect();
        for i in 0..F::W { for j in 0..F::W { for (a, b) in [(1u64, 2u64), (2, 1), (g[0], 1)].iter() {
            let mut l = vec![3u64; F::W]; l[i] = *a; if j != i { l[j] = *b; }
            v.push(big(&l));
        } } }
        v.sort(); v.dedup(); v.retain(|x| x < &F::order());
        let step = ctx.tier(3, 1);
        v.into_iter().enumerate().filter(|(i, _)| i % step == 0 || *i < 60).map(|(_, x)| (F::of(&x), x)).collect()
    };
    ctx.bulk("ordering", F::NAME, || {
        for (a, x) in &al { for (b, y) in &al {
            let c = x.cmp(y);
            ensure!(a.cmp(b) == c && a.partial_cmp(b) == Some(c) && (a == b) == (x == y) && (a < b) == (x < y) && (*a.max(b) == F::of(x.max(y))),
                "{}: order of {:x} and {:x}: {:?}", F::NAME, x, y, a.cmp(b));
        } }
        Ok((al.len() * al.len()) as u64)
    });
    ctx.bulk("hash", F::NAME, || {
        let h = |x: &F| { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() };
        for (a, x) in &al { eq!(h(a), h(&F::from_canonical_u64_vec(limbs(x, F::W))), "{} hash", F::NAME); }
        Ok(al.len() as u64)
    });
}

fn cross<F: Fx, G: Fx>(ctx: &'static Ctx) {
    ctx.bulk("cross field", &format!("{} to {}", F::NAME, G::NAME), || {
        let vs: Vec<B> = ints::<F>().into_iter().filter(|x| x < &F::order()).collect();
        for x in &vs {
            let r = F::of(x).try_convert::<G>();
            let fits = F::W == G::W && x < &G::order();
            ensure!(r.is_ok() == fits, "{} -> {} of {:x}: {:?}", F::NAME, G::NAME, x, r.map(|v| v.raw()));
            if let Ok(y) = r { ensure!(&y.val() == x && y.reduced(), "{} -> {} of {:x} gives {:x}", F::NAME, G::NAME, x, y.val()); }
        }
        // try_convert_all: fails exactly if some element does not fit, keeps order
        let fit: Vec<F> = vs.iter().filter(|x| x < &&G::order()).take(3).map(|x| F::of(x)).collect();
        let big: Vec<F> = vs.iter().filter(|x| x >= &&G::order()).take(2).map(|x| F::of(x)).collect();
        if F::W == G::W {
            let r = F::try_convert_all::<G>(&fit).map_err(|e| e.to_string())?;
            eq!(r.iter().map(|x| x.val()).collect::<Vec<_>>(), fit.iter().map(|x| x.val()).collect::<Vec<_>>(), "try_convert_all");
            for b in &big { for i in 0..=fit.len() { let mut v = fit.clone(); v.insert(i, *b); ensure!(F::try_convert_all::<G>(&v).is_err(), "try_convert_all accepts a value that does not fit at {}", i); } }
        }
        ensure!(F::try_convert_all::<G>(&[]).map_or(false, |v| v.is_empty()), "try_convert_all of nothing");
        Ok(vs.len() as u64)
    });
}
fn cross_all<F: Fx>(ctx: &'static Ctx) {
    cross::<F, PallasBase>(ctx); cross::<F, VestaBase>(ctx); cross::<F, TweedledeeBase>(ctx);
    cross::<F, TweedledumBase>(ctx); cross::<F, Bls12377Base>(ctx); cross::<F, Bls12377Scalar>(ctx);
}

fn u64_slices(ctx: &'static Ctx) {
    let al = [0u64, 1, 0xff, 0x100, 0x0123_4567_89ab_cdef, u64::max_value(), 1 << 63];
    ctx.bulk("u64_slice_to_biguint", "all lists to length 3", || {
        let mut n = 0;
        let mut lists: Vec<Vec<u64>> = vec![vec![]];
        for _ in 0..3 {
            let mut next = vec![];
            for l in &lists { for a in al.iter() { let mut m = l.clone(); m.push(*a); next.push(m); } }
            for l in &lists { eq!(u64_slice_to_biguint(l), big(l), "u64_slice_to_biguint({:x?})", l); n += 1; }
            lists = next;
        }
        for l in &lists { eq!(u64_slice_to_biguint(l), big(l), "u64_slice_to_biguint({:x?})", l); n += 1; }
        Ok(n)
    });
}

fn main() {
    run("C03", "exploration", "per field, every integer within 2 of a power of two, a multiple of any order, or differing from an order in one or two limbs; distinct integers, ordered pairs of them, and ordered pairs of fields", |ctx| {
        let mut fs: Vec<fn(&'static Ctx)> = vec![u64_slices];
        macro_rules! add { ($($t:ident)*) => { $( fs.push(field::<$t>); fs.push(cross_all::<$t>); )* } }
        add!(PallasBase VestaBase TweedledeeBase TweedledumBase Bls12377Base Bls12377Scalar);
        ctx.par(fs, move |f| f(ctx));
    })
}
