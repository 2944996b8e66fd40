//! C04: the group law on affine and projective points.
use mc::alpha::*;
use mc::pts::*;
use mc::refm::*;
use mc::*;
use plonky::*;

/// Named points: small multiples of the generator and of an unrelated point, their negatives, and points of small order.
fn points<C: Cx>(thorough: bool) -> Vec<(String, Pt)> where C::BaseField: Fx, C::ScalarField: Fx {
    let c = crv::<C>();
    let g = Some((C::GENERATOR_AFFINE.x.val(), C::GENERATOR_AFFINE.y.val()));
    let mut v = vec![("O".to_string(), None)];
    let m = if thorough { 12 } else { 6 };
    for k in 1..=m { let q = c.mul(&b(k), &g); v.push((format!("-{}G", k), c.neg(&q))); v.push((format!("{}G", k), q)); }
    for i in 0..(if thorough { 4 } else { 2 }) {
        let k = generic::<C::ScalarField>(i + 50).val();
        let q = c.mul(&k, &g);
        v.push((format!("rG{}", i), q.clone())); v.push((format!("-rG{}", i), c.neg(&q))); v.push((format!("2rG{}", i), c.add(&q, &q)));
    }
    // same x-coordinate orbit under the cube roots of unity: different points with equal y
    let p = &c.p;
    let w = pw(&generic::<C::BaseField>(3).val(), &((p - 1u32) / 3u32), p);
    if (p - 1u32) % 3u32 == b(0) && w != b(1) && c.a == b(0) {
        for k in 1..3 { let (x, y) = c.mul(&b(k), &g).unwrap(); v.push((format!("w{}G", k), Some((mul(&x, &w, p), y.clone())))); v.push((format!("-w{}G", k), Some((mul(&x, &w, p), neg(&y, p))))); }
    }
    // points with y = 0 (order two), if the curve has any over the base field: x^3 = -b
    if c.b == b(1) && c.a == b(0) {
        for x in [b(1), w.clone(), mul(&w, &w, p)].iter() {
            let t = Some((neg(x, p), b(0)));
            v.push((format!("T{}", v.len()), t.clone()));
            v.push((format!("G+T{}", v.len()), c.add(&g, &t)));
            v.push((format!("-G+T{}", v.len()), c.add(&c.neg(&g), &t)));
        }
    }
    // x = 0
    for (n, x) in [("x0", b(0)), ("x1", b(1)), ("x2", b(2))].iter() {
        let rhs = add(&add(&mul(&mul(x, x, p), x, p), &mul(&c.a, x, p), p), &c.b, p);
        if let Some(y) = C::BaseField::of(&rhs).square_root() { let q = Some((x.clone(), y.val())); if c.on(&q) { v.push((n.to_string(), q)); } }
    }
    v
}

fn pairs<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let pts = points::<C>(ctx.thorough);
    for (n, q) in &pts { if !crv::<C>().on(q) { ctx.fail("setup", &format!("{} {} {}: harness point off the curve", C::CNAME, n, "")); } }
    let pts2 = pts.clone();
    for (n1, q1) in pts {
        let pts2 = &pts2;
        ctx.bulk("ordered pairs", &format!("{} {}", C::CNAME, n1), || {
            let c = crv::<C>();
            let (a1, p1) = (affs::<C>(&q1), projs::<C>(&q1));
            let dbl = c.add(&q1, &q1);
            let mut n = 0u64;
            for a in &a1 {
                sa(&a.double(), &dbl, &|| format!("affine double of {}", n1))?;
                sa(&-*a, &c.neg(&q1), &|| format!("affine neg of {}", n1))?;
                sp(&a.to_projective(), &q1, &|| format!("to_projective of {}", n1))?;
                ensure!(a.is_valid(), "{} {} reported invalid", C::CNAME, n1);
                n += 3;
            }
            for (i, a) in p1.iter().enumerate() {
                sp(&a.double(), &dbl, &|| format!("projective double of {} (rep {})", n1, i))?;
                sp(&-*a, &c.neg(&q1), &|| format!("projective neg of {}", n1))?;
                sp(&ProjectivePoint::neg(a), &c.neg(&q1), &|| format!("projective neg method of {}", n1))?;
                sa(&a.to_affine(), &q1, &|| format!("to_affine of {} (rep {})", n1, i))?;
                ensure!(a.is_valid(), "{} {} reported invalid", C::CNAME, n1);
                n += 4;
            }
            for (n2, q2) in pts2 {
                let s = c.add(&q1, q2);
                let (a2, p2) = (affs::<C>(q2), projs::<C>(q2));
                for (i, x) in a1.iter().enumerate() { for (j, y) in a2.iter().enumerate() {
                    sp(&(*x + *y), &s, &|| format!("affine {} + affine {} ({}, {})", n1, n2, i, j))?;
                    ensure!((x == y) == (&q1 == q2), "{} affine equality of {} and {}", C::CNAME, n1, n2);
                    n += 2;
                } }
                for (i, x) in p1.iter().enumerate() {
                    for (j, y) in a2.iter().enumerate() { sp(&(*x + *y), &s, &|| format!("projective {} (rep {}) + affine {} ({})", n1, i, n2, j))?; n += 1; }
                    for (j, y) in p2.iter().enumerate() {
                        sp(&(*x + *y), &s, &|| format!("projective {} (rep {}) + projective {} (rep {})", n1, i, n2, j))?;
                        ensure!((x == y) == (&q1 == q2), "{} projective equality of {} (rep {}) and {} (rep {})", C::CNAME, n1, i, n2, j);
                        n += 2;
                    }
                }
            }
            Ok(n)
        });
    }
}

fn batches<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("batch conversion", C::CNAME, || {
        let pts = points::<C>(false);
        let mut pool: Vec<(ProjectivePoint<C>, Pt)> = vec![];
        for (_, q) in pts.iter().take(5) { for r in projs::<C>(q) { pool.push((r, q.clone())); } }
        let mut n = 0;
        // every word over a few representatives, identity included, to length 4 and long lists with every identity period
        let small: Vec<(ProjectivePoint<C>, Pt)> = vec![pool[0].clone(), pool[1].clone(), pool[2].clone(), pool[4].clone(), pool[9].clone()];
        let mut words: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..=5 {
            for w in &words {
                let ps: Vec<_> = w.iter().map(|i| small[*i].0).collect();
                let r = ProjectivePoint::batch_to_affine(&ps);
                ensure!(r.len() == ps.len(), "batch_to_affine length");
                for (x, i) in r.iter().zip(w) { sa(x, &small[*i].1, &|| format!("batch_to_affine of {:?}", w))?; }
                let back = AffinePoint::batch_to_projective(&r);
                ensure!(back.len() == ps.len(), "batch_to_projective length");
                for (x, i) in back.iter().zip(w) { sp(x, &small[*i].1, &|| format!("batch_to_projective of {:?}", w))?; }
                n += 1;
            }
            words = words.into_iter().flat_map(|w| (0..small.len()).map(move |i| { let mut v = w.clone(); v.push(i); v })).collect();
        }
        for len in [10usize, 33, 64, 100, 129].iter() { for period in 1..5 {
            let idx: Vec<usize> = (0..*len).map(|i| if i % period == 0 { i % 3 } else { 3 + i % (pool.len() - 3) }).collect();
            let ps: Vec<_> = idx.iter().map(|i| pool[*i].0).collect();
            let r = ProjectivePoint::batch_to_affine(&ps);
            for (x, i) in r.iter().zip(&idx) { sa(x, &pool[*i].1, &|| format!("batch_to_affine of {} points", len))?; }
            let s = ProjectivePoint::add_slices(&ps, &ps.iter().rev().cloned().collect::<Vec<_>>());
            ensure!(s.len() == *len, "add_slices length");
            for k in 0..*len { sp(&s[k], &crv::<C>().add(&pool[idx[k]].1, &pool[idx[len - 1 - k]].1), &|| "add_slices".to_string())?; }
            n += 1;
        } }
        Ok(n)
    });
    ctx.case("generator", C::CNAME, || {
        let c = crv::<C>();
        let g = of_aff(&C::GENERATOR_AFFINE)?;
        ensure!(g.is_some() && c.on(&g), "generator is not a finite point of the curve");
        sp(&C::GENERATOR_PROJECTIVE, &g, &|| "GENERATOR_PROJECTIVE".to_string())?;
        ensure!(c.mul(&C::ScalarField::order(), &g).is_none(), "order times the generator is not the identity");
        ensure!(C::is_safe_curve(), "curve reported unsafe");
        Ok(())
    });
    ctx.bulk("validity", C::CNAME, || {
        let c = crv::<C>();
        let xs: Vec<B> = values::<C::BaseField>().into_iter().step_by(40).collect();
        let mut n = 0;
        for (_, q) in points::<C>(false) { if let Some((x, y)) = q {
            for d in xs.iter() {
                for (x2, y2) in [(x.clone(), add(&y, d, &c.p)), (add(&x, d, &c.p), y.clone()), (y.clone(), x.clone())].iter() {
                    let on = c.on(&Some((x2.clone(), y2.clone())));
                    let a = AffinePoint::<C> { x: C::BaseField::of(x2), y: C::BaseField::of(y2), zero: false };
                    ensure!(a.is_valid() == on, "{}: validity of a point is {}", C::CNAME, a.is_valid());
                    ensure!(AffinePoint::<C> { zero: true, ..a }.is_valid(), "identity must be valid");
                    n += 1;
                }
            }
        } }
        Ok(n)
    });
}

/// All operation words over an accumulator; its expected value is m*G.
fn words<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let depth = ctx.tier(if C::BaseField::W == 4 { 5 } else { 4 }, 6);
    let lim: i64 = 1200;
    let c = crv::<C>();
    let g = Some((C::GENERATOR_AFFINE.x.val(), C::GENERATOR_AFFINE.y.val()));
    let mut tab: Vec<Pt> = vec![None];
    let maxm = (1i64 << (depth + 1)).min(lim);
    for i in 0..maxm as usize + 2 { let q = c.add(&tab[i], &g); tab.push(q); }
    let at = |m: i64| -> Pt { if m >= 0 { tab[m as usize].clone() } else { c.neg(&tab[-m as usize]) } };
    let (g1, g2p) = (aff::<C>(&at(1)), projs::<C>(&at(2))[3]);
    ctx.bulk("operation words", &format!("{} depth {}", C::CNAME, depth), || {
        let mut n = 0u64;
        // depth-first over (accumulator, multiple)
        let mut stack: Vec<(ProjectivePoint<C>, i64, usize, Vec<u8>)> = vec![(ProjectivePoint::ZERO, 0, 0, vec![]), (projs::<C>(&at(1))[1], 1, 0, vec![]), (projs::<C>(&at(-2))[2], -2, 0, vec![])];
        while let Some((acc, m, d, w)) = stack.pop() {
            if d == depth { continue; }
            for op in 0..9u8 {
                let (r, m2) = match op {
                    0 => (acc + g1, m + 1),
                    1 => (acc + -g1, m - 1),
                    2 => (acc + g2p, m + 2),
                    3 => (-g2p + acc, m - 2),
                    4 => (acc.double(), 2 * m),
                    5 => (acc + acc.to_affine(), 2 * m),
                    6 => (-acc, -m),
                    7 => (acc + (-acc), 0),
                    _ => (acc.to_affine().double().to_projective() + -acc, m),
                };
                if m2.abs() > maxm { continue; }
                let mut w2 = w.clone(); w2.push(op);
                sp(&r, &at(m2), &|| format!("operation word {:?}", w2))?;
                n += 1;
                stack.push((r, m2, d + 1, w2));
            }
        }
        Ok(n)
    });
}

fn endo<C: Cx + HaloCurve>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.bulk("endomorphism", C::CNAME, || {
        let c = crv::<C>();
        let z = C::ZETA_SCALAR.val();
        let mut n = 0;
        for (nm, q) in points::<C>(false) {
            for a in affs::<C>(&q) { sa(&a.endomorphism(), &c.mul(&z, &q), &|| format!("endomorphism of {}", nm))?; n += 1; }
        }
        Ok(n)
    });
}

fn main() {
    run("C04", "exploration", "ordered pairs of named points (identity, multiples of the generator and of unrelated points with both signs, points of order two, orbit points with equal y) in every affine and projective representative of a list; words of operations on an accumulator", |ctx| {
        let mut fs: Vec<fn(&'static Ctx)> = vec![];
        macro_rules! add { ($($t:ident)*) => { $( fs.push(pairs::<$t>); fs.push(words::<$t>); fs.push(batches::<$t>); )* } }
        add!(Bls12377 Pallas Vesta Tweedledee Tweedledum);
        fs.push(endo::<Tweedledee>); fs.push(endo::<Tweedledum>); fs.push(endo::<Pallas>); fs.push(endo::<Vesta>);
        ctx.par(fs, move |f| f(ctx));
    })
}
