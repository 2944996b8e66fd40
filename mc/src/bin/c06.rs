//! C06: FFT and inverse FFT against direct evaluation.
use mc::alpha::*;
use mc::refm::*;
use mc::*;
use plonky::*;

fn root<F: Fx>(k: usize) -> Result<B, String> {
    let p = F::order();
    let w = F::primitive_root_of_unity(k).val();
    ensure!(pw(&w, &(b(1) << k), &p) == b(1) && (k == 0 || pw(&w, &(b(1) << (k - 1)), &p) == &p - 1u32), "{}: no primitive root of order 2^{}", F::NAME, k);
    Ok(w)
}
fn pows(w: &B, n: usize, p: &B) -> Vec<B> { let mut v = vec![b(1)]; for i in 1..n { let x = mul(&v[i - 1], w, p); v.push(x); } v }
fn val<F: Fx>(v: &[F], what: &str) -> Result<Vec<B>, String> {
    ensure!(v.iter().all(|x| x.reduced()), "{}: unreduced element", what);
    Ok(v.iter().map(|x| x.val()).collect())
}

/// All basis vectors, all lengths, dense vectors at one small size.
fn size<F: Fx>(ctx: &'static Ctx, k: usize) {
    let n = 1usize << k;
    ctx.bulk("all basis vectors and lengths", &format!("{} 2^{}", F::NAME, k), || {
        let p = F::order();
        let w = root::<F>(k)?;
        let pw_ = pows(&w, n, &p);
        let pre = fft_precompute::<F>(n);
        eq!(pre.size(), n, "precomputation size");
        let c = generic::<F>(3);
        let cv = c.val();
        let ninv = inv(&(b(n as u64) % &p), &p);
        let mut cnt = 0;
        for j in 0..n {
            let mut v = vec![F::ZERO; n]; v[j] = c;
            let want: Vec<B> = (0..n).map(|i| mul(&cv, &pw_[i * j % n], &p)).collect();
            eq!(val(&fft_with_precomputation_power_of_2(&v, &pre), "fft")?, want, "{} fft of basis vector {} of {}", F::NAME, j, n);
            eq!(val(&fft_with_precomputation(&v, &pre), "fft")?, want, "{} fft_with_precomputation of basis vector {} of {}", F::NAME, j, n);
            // shorter input: the vector cut right after its non-zero entry, and every longer cut
            for m in [j + 1, (j + 1 + n) / 2, n].iter() {
                if *m * 2 > n { eq!(val(&fft_with_precomputation(&v[..*m], &pre), "fft")?, want, "{} fft of basis vector {} cut to {} of {}", F::NAME, j, m, n); cnt += 1; }
            }
            let wi: Vec<B> = (0..n).map(|i| mul(&mul(&cv, &ninv, &p), &pw_[(n - i * j % n) % n], &p)).collect();
            eq!(val(&ifft_with_precomputation_power_of_2(&v, &pre), "ifft")?, wi, "{} inverse fft of basis vector {} of {}", F::NAME, j, n);
            cnt += 3;
        }
        // every input length that pads to n, dense, with a fresh precomputation
        for m in (n / 2 + 1).max(1)..=n {
            let v: Vec<F> = (0..m).map(|i| generic::<F>((i * 31 + m) as u64)).collect();
            let vv: Vec<B> = v.iter().map(|x| x.val()).collect();
            let want: Vec<B> = pw_.iter().map(|x| peval(&vv, x, &p)).collect();
            eq!(val(&fft(&v), "fft")?, want, "{} fft of length {}", F::NAME, m);
            let pre2 = fft_precompute::<F>(m);
            ensure!(pre2 == pre, "{} precomputation for {} differs from that for {}", F::NAME, m, n);
            let e = fft_with_precomputation(&v, &pre2);
            eq!(val(&e, "fft")?, want, "{} fft of length {} with its own precomputation", F::NAME, m);
            let back = ifft_with_precomputation_power_of_2(&e, &pre2);
            ensure!(back[..m] == v[..] && back[m..].iter().all(|x| x.is_zero()), "{} inverse of fft of length {}", F::NAME, m);
            let f2 = fft_with_precomputation_power_of_2(&ifft_with_precomputation_power_of_2(&e, &pre), &pre);
            ensure!(f2 == e, "{} fft of inverse, length {}", F::NAME, m);
            cnt += 4;
        }
        // boundary-valued inputs
        for s in 0..8usize {
            let al = small::<F>();
            let v: Vec<F> = (0..n).map(|i| al[(i * (s + 1) + s) % al.len()]).collect();
            let vv: Vec<B> = v.iter().map(|x| x.val()).collect();
            let want: Vec<B> = pw_.iter().map(|x| peval(&vv, x, &p)).collect();
            eq!(val(&fft_with_precomputation_power_of_2(&v, &pre), "fft")?, want, "{} fft of boundary values {} of {}", F::NAME, s, n);
            cnt += 1;
        }
        Ok(cnt)
    });
}

/// Larger sizes, under pools of several sizes: selected basis vectors in full, dense vectors at selected outputs.
fn large<F: Fx>(ctx: &'static Ctx, k: usize, threads: usize) {
    let n = 1usize << k;
    ctx.bulk("large sizes and thread pools", &format!("{} 2^{} {} threads", F::NAME, k, threads), || {
        let p = F::order();
        let w = root::<F>(k)?;
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| e.to_string())?;
        let pre = pool.install(|| fft_precompute::<F>(n));
        ensure!(pre == fft_precompute::<F>(n), "precomputation depends on the pool");
        let fw = F::of(&w);
        let mut cnt = 0;
        let mut js = vec![0, 1, 2, 3, n / 2 - 1, n / 2, n / 2 + 1, n - 1, 1999 % n, 2000 % n, 3999 % n, 4000 % n, 2 * n / 3];
        for i in 0..k { js.push(1 << i); }
        js.sort(); js.dedup();
        let c = generic::<F>(11);
        for j in js {
            let mut v = vec![F::ZERO; n]; v[j] = c;
            let r = pool.install(|| fft_with_precomputation_power_of_2(&v, &pre));
            ensure!(r.len() == n, "length");
            // running product, started and spot-checked with the reference
            let step = F::of(&pw(&w, &B::from(j), &p));
            let mut cur = c;
            for i in 0..n { ensure!(r[i] == cur, "{} fft of basis vector {} of {} at output {}", F::NAME, j, n, i); cur = cur * step; }
            ensure!(r[n - 1].val() == mul(&c.val(), &pw(&w, &(B::from(j) * (n - 1)), &p), &p), "{} reference spot check", F::NAME);
            let back = pool.install(|| ifft_with_precomputation_power_of_2(&r, &pre));
            ensure!(back == v, "{} inverse of fft of basis vector {} of {}", F::NAME, j, n);
            cnt += 2;
        }
        for m in [n, n - 1, n / 2 + 1, 3 * n / 4].iter() {
            let v: Vec<F> = (0..*m).map(|i| F::from_raw(&limbs(&(big(&[mix(i as u64), mix(i as u64 + 7), mix(*m as u64 + i as u64)]) % &p), F::W))).collect();
            let r = pool.install(|| fft_with_precomputation(&v, &pre));
            ensure!(r.len() == n, "length");
            for o in (0..n).step_by(n / 16 - 1).chain(vec![n - 1, 1, n / 2]) {
                let x = fw.exp(F::u(o as u64));
                let mut want = F::ZERO; for a in v.iter().rev() { want = want * x + *a; }
                ensure!(r[o] == want, "{} fft of a dense list of {} at output {} of {}", F::NAME, m, o, n);
                cnt += 1;
            }
            let back = pool.install(|| ifft_with_precomputation_power_of_2(&r, &pre));
            ensure!(back[..*m] == v[..] && back[*m..].iter().all(|x| x.is_zero()), "{} inverse of fft of length {} of {}", F::NAME, m, n);
            ensure!(r == fft_with_precomputation(&v, &pre), "{} fft repeated on another pool", F::NAME);
            ensure!(r == fft(&v), "{} fft with a fresh precomputation", F::NAME);
            cnt += 3;
        }
        Ok(cnt)
    });
}

/// One precomputation used for a word of operations gives what a fresh one gives; serde round trip included.
fn reuse<F: Fx>(ctx: &'static Ctx) {
    ctx.bulk("reuse", F::NAME, || {
        let mut cnt = 0;
        for k in 0..5usize {
            let n = 1 << k;
            let pre = fft_precompute::<F>(n);
            let cl = pre.clone();
            let rt: FftPrecomputation<F> = serde_cbor::from_slice(&serde_cbor::to_vec(&pre).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            ensure!(rt == pre && cl == pre, "{} precomputation round trip", F::NAME);
            for word in 0..64u32 {
                let mut v: Vec<F> = (0..n).map(|i| generic::<F>(i as u64 + word as u64)).collect();
                let mut u = v.clone();
                for s in 0..6 {
                    let q = if s % 2 == 0 { &pre } else if s % 3 == 0 { &cl } else { &rt };
                    if word >> s & 1 == 1 { v = fft_with_precomputation_power_of_2(&v, q); u = fft_with_precomputation_power_of_2(&u, &fft_precompute(n)); }
                    else { v = ifft_with_precomputation_power_of_2(&v, q); u = ifft_with_precomputation_power_of_2(&u, &fft_precompute(n)); }
                    ensure!(u == v, "{} word {:b} step {} of size {}", F::NAME, word, s, n);
                    cnt += 1;
                }
            }
        }
        Ok(cnt)
    });
}

fn main() {
    run("C06", "exploration", "every basis vector and every input length of each small size; selected basis vectors and dense lists of large sizes (parallel chunk boundaries) under thread pools of several sizes; words of transforms over one precomputation", |ctx| {
        let mut fs: Vec<Box<dyn Fn() + Send + Sync>> = vec![];
        let kmax = ctx.tier(7, 9);
        macro_rules! add { ($($t:ident)*) => {
            $( for k in (if ctx.thorough { vec![13usize, 14, 16, 17] } else { vec![12, 13] }) { for t in [1usize, 2, 8].iter() { let t = *t; fs.push(Box::new(move || large::<$t>(ctx, k, t))); } } )*
            for k in (0..=kmax).rev() { $( fs.push(Box::new(move || size::<$t>(ctx, k))); )* }
            $( fs.push(Box::new(move || reuse::<$t>(ctx))); )*
        } }
        add!(Bls12377Scalar TweedledeeBase TweedledumBase PallasBase VestaBase Bls12377Base);
        ctx.par(fs, move |f| f());
    })
}
