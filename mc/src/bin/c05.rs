//! C05: scalar multiplication, multi-scalar multiplication and summation.
use mc::alpha::*;
use mc::pts::*;
use mc::refm::*;
use mc::*;
use plonky::*;

type V = Vec<(String, Pt)>;
fn g<C: Cx>() -> Pt where C::BaseField: Fx, C::ScalarField: Fx { Some((C::GENERATOR_AFFINE.x.val(), C::GENERATOR_AFFINE.y.val())) }
fn sum(c: &Crv, v: &[Pt]) -> Pt { v.iter().fold(None, |s, q| c.add(&s, q)) }

/// O, G, -G, 2G, an unrelated point, and a point of order two where there is one.
fn base<C: Cx>() -> V where C::BaseField: Fx, C::ScalarField: Fx {
    let c = crv::<C>();
    let g = g::<C>();
    let r = c.mul(&generic::<C::ScalarField>(9).val(), &g);
    let mut v = vec![("O".into(), None), ("G".into(), g.clone()), ("-G".into(), c.neg(&g)), ("R".into(), r.clone()), ("2G".into(), c.add(&g, &g)), ("-R".into(), c.neg(&r))];
    if c.b == b(1) { v.push(("T".into(), Some((neg(&b(1), &c.p), b(0))))); }
    v
}
fn scalars<C: Cx>(w: usize) -> Vec<B> where C::ScalarField: Fx, C::BaseField: Fx {
    let r = C::ScalarField::order();
    let one = b(1);
    let mut v = vec![b(0), b(1), &r - 1u32, (&one << w) - 1u32, &one << w, generic::<C::ScalarField>(77).val(), &one << (r.bits() as usize - 1), (&one << 64usize) - 1u32];
    v.retain(|x| x < &r);
    v
}

fn single<C: Cx>(ctx: &'static Ctx, part: usize, parts: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let c = crv::<C>();
    let r = C::ScalarField::order();
    let mut ss: Vec<B> = vec![];
    for i in 0..(r.bits() as usize + 3) / 4 { for d in if ctx.thorough { 1..16u32 } else { 1..3 } { let d = if ctx.thorough { d } else { (i as u32 * 7 + d * 5) % 15 + 1 }; ss.push((b(1) << (4 * i)) * d); ss.push(((b(1) << (4 * i)) * d + 1u32) % &r); } }
    for (i, v) in values::<C::ScalarField>().into_iter().enumerate() { if ctx.thorough || i % 12 == 0 || v.bits() < 5 { ss.push(v); } }
    ss.push(&r - 1u32); ss.push(&r - 2u32); ss.push(b(0));
    ss.retain(|x| x < &r);
    ss.sort(); ss.dedup();
    let bs = base::<C>();
    ctx.bulk("single", &format!("{} part {}", C::CNAME, part), || {
        ensure!(c.mul(&generic::<C::ScalarField>(5).val(), &bs[3].1) == c.mul_slow(&generic::<C::ScalarField>(5).val(), &bs[3].1), "harness: reference multiplication");
        let mut n = 0;
        for (k, (nm, q)) in bs.iter().enumerate() {
            let ps = projs::<C>(q);
            let pre: Vec<_> = ps.iter().map(|p| p.mul_precompute()).collect();
            for (i, s) in ss.iter().enumerate() {
                if i % parts != part || (k > 1 && i % 9 != k && s.bits() > 4) || (k == 0 && i % 20 != 0) { continue; }
                let want = c.mul(s, q);
                let rep = i / parts % ps.len();
                let f = C::ScalarField::of(s);
                sp(&(C::convert(f) * ps[rep]), &want, &|| format!("{} * {} (rep {})", s, nm, rep))?;
                sp(&ps[rep].mul_with_precomputation(f, pre[rep].clone()), &want, &|| format!("{} * {} (rep {}) with precomputation", s, nm, rep))?;
                n += 2;
            }
            if part == 0 {
                // reuse of one precomputation, in sequence, gives the same answers again
                for s in ss.iter().take(5) { sp(&ps[0].mul_with_precomputation(C::ScalarField::of(s), pre[0].clone()), &c.mul(s, q), &|| format!("{} * {} again", s, nm))?; n += 1; }
                let f = C::ScalarField::of(&ss[ss.len() / 2]);
                let sl = f.scale_proj_point_slice(&ps);
                ensure!(sl.len() == ps.len(), "scale_proj_point_slice length");
                for x in &sl { sp(x, &c.mul(&ss[ss.len() / 2], q), &|| "scale_proj_point_slice".to_string())?; n += 1; }
            }
        }
        Ok(n)
    });
}

fn msm_all<C: Cx>(pts: &[(String, Pt)], idx: &[(usize, B)], w: usize, pool: Option<&rayon::ThreadPool>, memo: &mut std::collections::HashMap<(usize, B), Pt>) -> Result<u64, String> where C::BaseField: Fx, C::ScalarField: Fx {
    let c = crv::<C>();
    let terms: Vec<Pt> = idx.iter().map(|(i, s)| memo.entry((*i, s.clone())).or_insert_with(|| c.mul(s, &pts[*i].1)).clone()).collect();
    let want = sum(&c, &terms);
    let gens: Vec<ProjectivePoint<C>> = idx.iter().enumerate().map(|(k, (i, _))| { let p = projs::<C>(&pts[*i].1); p[k % p.len()] }).collect();
    let ss: Vec<C::ScalarField> = idx.iter().map(|(_, s)| C::ScalarField::of(s)).collect();
    let d = |what: &str| format!("{} window {} of {:?}", what, w, idx.iter().take(8).map(|(i, s)| format!("{}*{}", s, pts[*i].0)).collect::<Vec<_>>());
    let go = || -> R {
        let pre = msm_precompute(&gens, w);
        sp(&msm_execute(&pre, &ss), &want, &|| d("msm_execute"))?;
        sp(&msm_execute_parallel(&pre, &ss), &want, &|| d("msm_execute_parallel"))?;
        sp(&msm_parallel(&ss, &gens, w), &want, &|| d("msm_parallel"))?;
        Ok(())
    };
    match pool { None => go()?, Some(p) => p.install(go)? }
    Ok(3)
}

fn msm<C: Cx>(ctx: &'static Ctx, w: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let pts = base::<C>();
    let sc = scalars::<C>(w);
    ctx.bulk("msm short lists", &format!("{} window {}", C::CNAME, w), || {
        let mut memo = Default::default();
        let mut n = 0;
        n += msm_all::<C>(&pts, &[], w, None, &mut memo)?;
        let al: Vec<(usize, B)> = (0..pts.len()).flat_map(|i| sc.iter().map(move |s| (i, s.clone()))).collect();
        for x in &al { n += msm_all::<C>(&pts, &[x.clone()], w, None, &mut memo)?; }
        // pairs: all combinations for small windows, a diagonal slice otherwise
        let step = if w > 8 { ctx.tier(200, 40) } else if w <= 4 && ctx.thorough { 1 } else if w <= 5 { ctx.tier(11, 3) } else { ctx.tier(61, 13) };
        for (k, (x, y)) in al.iter().flat_map(|x| al.iter().map(move |y| (x, y))).enumerate() {
            if k % step == w % step { n += msm_all::<C>(&pts, &[x.clone(), y.clone()], w, None, &mut memo)?; }
        }
        // longer lists with every rotation of the point and scalar lists
        for len in [3usize, 4, 5, 7].iter() { for rot in 0..(if w < 9 { pts.len() } else { 1 }) {
            let v: Vec<(usize, B)> = (0..*len).map(|i| ((i + rot) % pts.len(), sc[(i * 3 + rot) % sc.len()].clone())).collect();
            n += msm_all::<C>(&pts, &v, w, None, &mut memo)?;
        } }
        Ok(n)
    });
}

fn msm_pools<C: Cx>(ctx: &'static Ctx, threads: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let pts = base::<C>();
    ctx.bulk("msm with thread pools", &format!("{} {} threads", C::CNAME, threads), || {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| e.to_string())?;
        let mut memo = Default::default();
        let mut n = 0;
        for w in [1usize, 3, 6, 7, 8, 10].iter() {
            let sc = scalars::<C>(*w);
            for len in [2usize, 20, 71].iter() {
                for kind in 0..3 {
                    if *len == 71 && kind != *w % 3 { continue; }
                    let v: Vec<(usize, B)> = (0..*len).map(|i| match kind {
                        0 => (i % pts.len(), sc[(i / 2) % sc.len()].clone()), // everything mixed
                        1 => (1, sc[5 % sc.len()].clone()),                   // one point and scalar repeated
                        _ => (1 + i % 2, sc[1].clone()),                      // G - G + G ...
                    }).collect();
                    n += msm_all::<C>(&pts, &v, *w, Some(&pool), &mut memo)?;
                }
            }
        }
        Ok(n)
    });
}

fn lists<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let c = crv::<C>();
    let pts = base::<C>();
    let check = |w: &[usize]| -> R {
        let want = sum(&c, &w.iter().map(|i| pts[*i].1.clone()).collect::<Vec<_>>());
        let v: Vec<AffinePoint<C>> = w.iter().enumerate().map(|(k, i)| { let a = affs::<C>(&pts[*i].1); a[k % a.len()] }).collect();
        let d = |s: &'static str| move || format!("{} of {:?}", s, w);
        sp(&affine_summation_best(v.clone()), &want, &d("summation_best"))?;
        sp(&affine_summation_pairwise(v.clone()), &want, &d("summation_pairwise"))?;
        sp(&affine_summation_batch_inversion(v.clone()), &want, &d("summation_batch_inversion"))?;
        sp(&v.iter().cloned().sum::<ProjectivePoint<C>>(), &want, &d("affine sum"))?;
        sp(&v.iter().map(|x| x.to_projective()).sum::<ProjectivePoint<C>>(), &want, &d("projective sum"))?;
        Ok(())
    };
    let k = pts.len();
    let maxlen = if k > 6 { 4 } else { ctx.tier(4, 6) };
    ctx.bulk("summation words", C::CNAME, || {
        let mut n = 0;
        let mut words: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=maxlen {
            for w in &words { check(w)?; n += 5; }
            words = words.into_iter().flat_map(|w| (0..k).map(move |i| { let mut v = w.clone(); v.push(i); v })).collect();
        }
        for len in 5..9usize { for rot in 0..k { for stride in 1..4 { check(&(0..len).map(|i| (i * stride + rot) % k).collect::<Vec<_>>())?; n += 5; } } }
        for len in [69usize, 70, 139, 140, 141, 142, 143, 281].iter() { for kind in 0..4 {
            check(&(0..*len).map(|i| match kind { 0 => i % k, 1 => 1, 2 => 1 + i % 2, _ => if i % 3 == 0 { 0 } else { 3 } }).collect::<Vec<_>>())?;
            n += 5;
        } }
        Ok(n)
    });
    ctx.bulk("multisummations", C::CNAME, || {
        let mut n = 0;
        let mut words: Vec<Vec<usize>> = vec![vec![]];
        for i in 0..k { words.push(vec![i]); for j in 0..k { words.push(vec![i, j]); } }
        words.push(vec![1, 1, 1]); words.push(vec![1, 3, 2]); words.push(vec![0, 0, 3, 1]); words.push((0..150).map(|i| i % k).collect());
        words.push((0..150).map(|_| 3).collect());
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        for i in 0..words.len() { lists.push(vec![i]); for j in 0..words.len() { if ctx.thorough || (i + 2 * j) % 3 == 0 { lists.push(vec![i, j]); } if (i * 7 + j) % 10 == 0 { lists.push(vec![i, j, (i + j) % words.len(), 0, i]); } } }
        for l in &lists {
            let v: Vec<Vec<AffinePoint<C>>> = l.iter().map(|i| words[*i].iter().map(|p| aff::<C>(&pts[*p].1)).collect()).collect();
            let want: Vec<Pt> = l.iter().map(|i| sum(&c, &words[*i].iter().map(|p| pts[*p].1.clone()).collect::<Vec<_>>())).collect();
            for (nm, r) in [("best", affine_multisummation_best(v.clone())), ("pairwise", affine_multisummation_pairwise(v.clone())), ("batch inversion", affine_multisummation_batch_inversion(v.clone()))].iter() {
                ensure!(r.len() == want.len(), "multisummation {} returns {} sums for {} lists", nm, r.len(), want.len());
                for (x, y) in r.iter().zip(&want) { sp(x, y, &|| format!("multisummation {} of lists {:?}", nm, l))?; }
                n += 1;
            }
        }
        Ok(n)
    });
}

fn main() {
    run("C05", "exploration", "scalars with a single non-zero window digit, around powers of two and the order, times points of every kind and representative; lists of (point, scalar) pairs per window size; words of points for the summations; thread pools of several sizes", |ctx| {
        let mut fs: Vec<Box<dyn Fn() + Send + Sync>> = vec![];
        let ws: Vec<usize> = if ctx.thorough { (1..=14).chain(vec![16]).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13] };
        macro_rules! addw { ($($t:ident)*) => { for w in ws.iter().rev().cloned() { $( if ctx.thorough || w < 9 || stringify!($t).starts_with("T") || stringify!($t).starts_with("B") { fs.push(Box::new(move || msm::<$t>(ctx, w))); } )* } } }
        addw!(Bls12377 Pallas Vesta Tweedledee Tweedledum);
        macro_rules! add { ($($t:ident)*) => { $(
            fs.push(Box::new(move || lists::<$t>(ctx)));
            for p in 0..4 { fs.push(Box::new(move || single::<$t>(ctx, p, 4))); }
            for t in [1usize, 2, 3, 8].iter() { let t = *t; if ctx.thorough || t != 3 || stringify!($t) == "Tweedledee" { fs.push(Box::new(move || msm_pools::<$t>(ctx, t))); } }
        )* } }
        add!(Bls12377 Pallas Vesta Tweedledee Tweedledum);
        ctx.par(fs, move |f| f());
    })
}
