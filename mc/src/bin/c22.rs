//! C22: hash to curve.
use mc::alpha::*;
use mc::pts::*;
use mc::refm::*;
use mc::*;
use plonky::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Seeds beyond the indices: limb and byte boundaries, all single-bit values, values near the order.
fn seeds<F: Fx>() -> Vec<B> {
    let mut v = values::<F>();
    for k in 0..F::order().bits() as usize - 1 { v.push((b(1) << k) + 7u32); v.push(generic::<F>(5).val() ^ (b(1) << k)); }
    v.retain(|x| x < &F::order());
    v.sort(); v.dedup();
    v
}


type Seen = Arc<Mutex<HashMap<B, String>>>;
fn note(seen: &Seen, x: B, who: String) -> R {
    // Two points are equal or opposite exactly when their x coordinates agree.
    if let Some(o) = seen.lock().unwrap().insert(x.clone(), who.clone()) { ensure!(o == who, "{} and {} hash to the same or opposite points (x = {})", o, who, x); }
    Ok(())
}

fn blake<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let n = ctx.tier(1usize << 13, 1 << 17) + 2;
    let seen: Seen = Default::default();
    let blocks: Vec<usize> = (0..n).step_by(1024).collect();
    // First pass ascending on one thread pool, second pass in another order elsewhere: the same points.
    let first: Arc<Mutex<HashMap<usize, AffinePoint<C>>>> = Default::default();
    let (s2, f2) = (seen.clone(), first.clone());
    ctx.par(blocks.clone(), move |&lo| {
        ctx.bulk("indices", &format!("{} {}..{}", C::CNAME, lo, (lo + 1024).min(n)), || {
            let mut loc = vec![];
            for i in lo..(lo + 1024).min(n) {
                let q = blake_hash_usize_to_curve::<C>(i);
                ensure!(!q.zero, "index {}: identity", i);
                let (x, _) = of_aff(&q).map_err(|e| format!("index {}: {}", i, e))?.unwrap();
                note(&s2, x, format!("seed {}", i))?;
                loc.push((i, q));
            }
            let k = loc.len() as u64;
            f2.lock().unwrap().extend(loc);
            Ok(k)
        });
    });
    let f2 = first.clone();
    ctx.par(blocks.into_iter().rev().collect(), move |&lo| {
        ctx.bulk("again", &format!("{} {}..{} in reverse, from field elements", C::CNAME, lo, (lo + 1024).min(n)), || {
            let mut k = 0;
            for i in (lo..(lo + 1024).min(n)).rev().step_by(if lo < 4096 { 1 } else { 8 }) {
                let q = blake_hash_base_field_to_curve::<C>(C::BaseField::u(i as u64));
                let o = f2.lock().unwrap()[&i];
                ensure!(q.x == o.x && q.y == o.y && !q.zero, "index {}: {:?} from the integer, {:?} from the field element", i, o, q);
                k += 1;
            }
            Ok(k)
        });
    });
    let s2 = seen.clone();
    ctx.bulk("seeds", &format!("{} structured seeds", C::CNAME), || {
        let sd = seeds::<C::BaseField>();
        for v in &sd {
            let q = blake_hash_base_field_to_curve::<C>(C::BaseField::of(v));
            let r = blake_hash_base_field_to_curve::<C>(C::BaseField::of(v));
            ensure!(!q.zero && q.x == r.x && q.y == r.y, "seed {}: not deterministic", v);
            let (x, _) = of_aff(&q).map_err(|e| format!("seed {}: {}", v, e))?.unwrap();
            note(&s2, x, format!("seed {}", v))?;
            if v.bits() <= 64 {
                let i = v.iter_u32_digits_64();
                let q2 = blake_hash_usize_to_curve::<C>(i as usize);
                ensure!(q2.x == q.x && q2.y == q.y, "seed {}: the integer and the field element entry points differ", v);
            }
        }
        Ok(sd.len() as u64)
    });
    ctx.bulk("field hash", &format!("{} every counter, {} seeds", C::CNAME, 12), || {
        let mut seen = HashMap::new();
        let mut signs = [0; 2];
        let mut k = 0;
        for s in [b(0), b(1), b(255), b(256), b(1) << 64, C::BaseField::order() - 1u32, generic::<C::BaseField>(9).val()].iter() {
            for i in 0..=255u8 {
                let (x, neg) = blake_field::<C::BaseField>(i, C::BaseField::of(s));
                ensure!(x.reduced(), "unreduced element");
                ensure!(blake_field::<C::BaseField>(i, C::BaseField::of(s)) == (x, neg), "not deterministic");
                signs[neg as usize] += 1;
                if let Some(o) = seen.insert(x.val(), (i, s.clone())) { return Err(format!("inputs {:?} and {:?} give the same element", o, (i, s))); }
                k += 1;
            }
        }
        ensure!(signs[0] > 0 && signs[1] > 0, "the sign is always the same");
        Ok(k)
    });
}

trait Low64 { fn iter_u32_digits_64(&self) -> u64; }
impl Low64 for B { fn iter_u32_digits_64(&self) -> u64 { limbs(self, 1)[0] } }

fn rescue<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let n = ctx.tier(24u32, 400);
    let seen: Seen = Default::default();
    let mut list: Vec<B> = (0..n).map(|i| b(i as u64)).collect();
    list.extend(seeds::<C::BaseField>().into_iter().step_by(ctx.tier(41, 3)));
    for k in [31usize, 32, 33, 63].iter() { list.push(b(1) << *k); list.push((b(1) << *k) - 1u32); }
    list.push(b(u64::max_value()));
    list.sort(); list.dedup();
    ctx.par(list, move |v| {
        ctx.case("rescue", &format!("{} seed {:x}", C::CNAME, v), || {
            let q = hash_base_field_to_curve::<C>(C::BaseField::of(v), 128);
            ensure!(!q.zero, "identity");
            let (x, _) = of_aff(&q)?.unwrap();
            note(&seen, x, format!("seed {}", v))?;
            let same = |r: AffinePoint<C>, what: &str| -> R { ensure!(r.x == q.x && r.y == q.y && !r.zero, "{} gives {:?} instead of {:?}", what, r, q); Ok(()) };
            same(hash_base_field_to_curve::<C>(C::BaseField::of(v), 128), "repeating the call")?;
            if v.bits() <= 64 { same(hash_usize_to_curve::<C>(limbs(v, 1)[0] as usize, 128), "the usize entry point")?; }
            if v.bits() <= 32 { same(hash_u32_to_curve::<C>(limbs(v, 1)[0] as u32, 128), "the u32 entry point")?; }
            Ok(())
        });
    });
}

fn main() {
    run("C22", "exploration", "distinct = one seed (or seed and counter)", |ctx| {
        blake::<Tweedledee>(ctx); blake::<Tweedledum>(ctx); blake::<Pallas>(ctx); blake::<Vesta>(ctx); blake::<Bls12377>(ctx);
        rescue::<Tweedledee>(ctx); rescue::<Tweedledum>(ctx); rescue::<Pallas>(ctx); rescue::<Vesta>(ctx); rescue::<Bls12377>(ctx);
    })
}
