//! C08: byte and serde encodings.
use mc::alpha::*;
use mc::circ::*;
use mc::pts::*;
use mc::refm::*;
use mc::*;
use plonky::*;
use serde::{de::DeserializeOwned, Serialize};

fn le(v: &B, n: usize) -> Vec<u8> { let mut d = v.to_bytes_le(); d.resize(n, 0); d }
fn fbytes<F: Fx>() -> usize { 8 * F::W }

fn cbor_round<T: Serialize + DeserializeOwned>(x: &T, same: impl Fn(&T) -> R, what: &str) -> Result<Vec<u8>, String> {
    let s = serde_cbor::to_vec(x).map_err(|e| format!("{}: serialisation failed: {}", what, e))?;
    same(&serde_cbor::from_slice(&s).map_err(|e| format!("{}: reading back failed: {}", what, e))?).map_err(|e| format!("{}: {}", what, e))?;
    same(&serde_cbor::from_reader(&s[..]).map_err(|e| format!("{}: reading back from a reader failed: {}", what, e))?)?;
    Ok(s)
}

fn fields<F: Fx + Serialize + DeserializeOwned>(ctx: &'static Ctx) {
    let n = fbytes::<F>();
    let p = F::order();
    let mut vs = values::<F>();
    vs.extend((0..ctx.tier(50, 1000)).map(|i| generic::<F>(i).val()));
    ctx.bulk("fields", &format!("{} round trips", F::NAME), || {
        eq!(F::BYTES, n, "BYTES");
        let mut lens = std::collections::HashSet::new();
        for v in &vs {
            let x = F::of(v);
            let mut b = vec![];
            x.write(&mut b).map_err(|e| e.to_string())?;
            eq!(b, le(v, n), "bytes of {}", v);
            let y = F::read(&b[..]).map_err(|e| format!("read of {}: {}", v, e))?;
            ensure!(y.reduced() && y.val() == *v, "read of {} gives {}", v, y.val());
            let mut fixed = vec![0u8; n];
            x.write(&mut fixed[..]).map_err(|e| e.to_string())?;
            ensure!(x.write(&mut fixed[..n - 1]).is_err(), "writing into a buffer that is too small reports success");
            let s = cbor_round(&x, |y| { ensure!(y.reduced() && y.val() == *v, "reads back as {}", y.val()); Ok(()) }, &format!("serde of {}", v))?;
            lens.insert(s.len());
        }
        ensure!(lens.len() == 1, "encoded lengths {:?}", lens);
        Ok(vs.len() as u64)
    });
    ctx.bulk("fields", &format!("{} truncations", F::NAME), || {
        let mut cnt = 0;
        for v in vs.iter().step_by(17) {
            let b = le(v, n);
            for l in 0..n { ensure!(F::read(&b[..l]).is_err(), "{} bytes of {} read as an element", l, v); cnt += 1; }
            let s = serde_cbor::to_vec(&F::of(v)).unwrap();
            for l in 0..s.len() { ensure!(serde_cbor::from_slice::<F>(&s[..l]).is_err(), "{} of {} bytes of the serde form of {} read as an element", l, s.len(), v); cnt += 1; }
            // A byte string of the wrong length inside a well-formed serde encoding.
            for l in 0..n { let q = serde_cbor::to_vec(&serde_cbor::Value::Bytes(b[..l].to_vec())).unwrap(); ensure!(serde_cbor::from_slice::<F>(&q).is_err(), "serde byte string of {} bytes read as an element", l); cnt += 1; }
        }
        Ok(cnt)
    });
    // Every value of every single byte, over base encodings around the order: accepted exactly below the order.
    ctx.bulk("fields", &format!("{} byte alterations", F::NAME), || {
        let mut cnt = 0;
        let mut bases: Vec<B> = vec![b(0), &p - 1u32, p.clone(), &p + 1u32, &p >> 1usize, generic::<F>(3).val(), (b(1) << (8 * n)) - 1u32];
        bases.extend((0..8 * n).map(|k| b(1) << k));
        for v in &bases {
            let base = le(v, n);
            let all = cnt < 7 * 256 * n as u64;
            for i in 0..n {
                for x in 0..=255u8 {
                    if !all && ![0, 1, 0x7f, 0x80, 0xff].contains(&x) { continue; }
                    let mut e = base.clone(); e[i] = x;
                    let w = B::from_bytes_le(&e);
                    let r = F::read(&e[..]);
                    if w < p { let y = r.map_err(|er| format!("encoding of {} below the order refused: {}", w, er))?; ensure!(y.reduced() && y.val() == w, "encoding of {} read as {}", w, y.val()); }
                    else { ensure!(r.is_err(), "encoding of {} at or above the order read as {:?}", w, r.map(|y| y.val())); }
                    cnt += 1;
                }
            }
        }
        for w in &[p.clone(), &p + 1u32, (b(1) << (8 * n)) - 1u32] {
            ensure!(serde_cbor::from_slice::<F>(&serde_cbor::to_vec(&serde_cbor::Value::Bytes(le(w, n))).unwrap()).is_err(), "serde encoding of {} accepted", w);
        }
        Ok(cnt)
    });
}

fn points<C: Cx>(ctx: &'static Ctx) where C::BaseField: Fx + Serialize + DeserializeOwned, C::ScalarField: Fx {
    let n = fbytes::<C::BaseField>();
    let c = crv::<C>();
    let p = C::BaseField::order();
    let e1 = (&p - 1u32) >> 1usize;
    let sqr = move |x: &B| -> Option<bool> { // None: residue zero
        let r = add(&add(&mul(&mul(x, x, &p), x, &p), &mul(&c.a, x, &p), &p), &c.b, &p);
        if r == b(0) { None } else { Some(r.modpow(&e1, &p) == b(1)) }
    };
    let c = crv::<C>();
    let p = C::BaseField::order();
    // Every x in a range around 0 and the order, and boundary values: readable exactly when on the curve.
    let k = ctx.tier(60u32, 2000);
    let mut xs: Vec<B> = (0..k).map(b_).chain((1..=k).map(|i| &p - i)).collect();
    if ctx.thorough { xs.extend(values::<C::BaseField>()); } else { xs.extend(values::<C::BaseField>().into_iter().step_by(9)); }
    ctx.bulk("points", &format!("{} every mask over {} x coordinates", C::CNAME, xs.len()), || {
        let mut cnt = 0;
        let mut seen = [0u32; 3];
        for x in &xs {
            let on = sqr(x);
            seen[match on { None => 0, Some(false) => 1, Some(true) => 2 }] += 1;
            for m in 0..4u8 {
                let mut e = vec![m]; e.extend(le(x, n));
                let r = AffinePoint::<C>::read(&e[..]);
                cnt += 1;
                if m & 1 == 1 { ensure!(r.as_ref().map(|q| q.zero).unwrap_or(false), "{}: an identity encoding is not read as the identity", C::CNAME); continue; }
                if on == Some(false) { ensure!(r.is_err(), "{}: x = {} is not on the curve but was read as {:?}", C::CNAME, x, r.ok()); continue; }
                let q = r.map_err(|er| format!("{}: x = {} is on the curve but refused: {}", C::CNAME, x, er))?;
                let pt = of_aff(&q)?;
                let (gx, gy) = pt.clone().ok_or("read as the identity")?;
                ensure!(&gx == x && (gy == b(0) || gy.bit(0) == (m == 2)), "{}: x = {} mask {} read as ({}, {})", C::CNAME, x, m, gx, gy);
                // Writing either representative back.
                for z in affs::<C>(&pt) {
                    let mut w = vec![]; z.write(&mut w).map_err(|e| e.to_string())?;
                    ensure!(w.len() == n + 1, "encoded length {}", w.len());
                    let back = AffinePoint::<C>::read(&w[..]).map_err(|e| e.to_string())?;
                    sa(&back, &pt, &|| "read of written point".to_string())?;
                }
            }
        }
        ensure!(seen[1] > 10 && seen[2] > 10, "vacuous {:?}", seen);
        Ok(cnt)
    });
    let g = of_aff(&C::GENERATOR_AFFINE).unwrap();
    let mut list: Vec<Pt> = vec![None, g.clone(), c.neg(&g), c.add(&g, &g)];
    for i in 3..ctx.tier(20u64, 200) { let q = c.mul(&b(i * i + 1), &g); list.push(c.neg(&q)); list.push(q); }
    if c.p.bits() > 300 { list.push(Some((sub(&b(0), &b(1), &p), b(0)))); } // order two
    ctx.bulk("points", &format!("{} round trips, truncations", C::CNAME), || {
        let mut cnt = 0;
        let mut lens = std::collections::HashSet::new();
        for pt in &list {
            for q in affs::<C>(pt) {
                let mut w = vec![]; q.write(&mut w).map_err(|e| e.to_string())?;
                eq!(w.len(), n + 1, "encoded length");
                sa(&AffinePoint::<C>::read(&w[..]).map_err(|e| e.to_string())?, pt, &|| "read".to_string())?;
                let s = cbor_round(&q, |y| sa(y, pt, &|| "serde".to_string()), C::CNAME)?;
                lens.insert(s.len());
                for l in 0..w.len() { ensure!(AffinePoint::<C>::read(&w[..l]).is_err(), "{}: {} of {} bytes read as a point", C::CNAME, l, w.len()); cnt += 1; }
                for l in 0..s.len() { ensure!(serde_cbor::from_slice::<AffinePoint<C>>(&s[..l]).is_err(), "{}: {} of {} serde bytes read as a point", C::CNAME, l, s.len()); cnt += 1; }
                for l in 0..w.len() { let t = serde_cbor::to_vec(&serde_cbor::Value::Bytes(w[..l].to_vec())).unwrap(); ensure!(serde_cbor::from_slice::<AffinePoint<C>>(&t).is_err(), "{}: serde byte string of {} bytes read as a point", C::CNAME, l); cnt += 1; }
            }
        }
        ensure!(lens.len() == 1, "encoded lengths {:?}", lens);
        for over in &[p.clone(), &p + 1u32, (b(1) << (8 * n)) - 1u32] {
            for m in &[0u8, 2] { let mut e = vec![*m]; e.extend(le(over, n)); ensure!(AffinePoint::<C>::read(&e[..]).is_err(), "x = {} at or above the order accepted", over); cnt += 1; }
        }
        Ok(cnt)
    });
    // All streams of up to `d` values out of an alphabet of points and field elements.
    let d = ctx.tier(3, 4);
    let alpha: Vec<(Option<Pt>, B)> = vec![(None, b(0)), (None, &p - 1u32), (None, generic::<C::BaseField>(1).val()), (Some(None), b(0)), (Some(g.clone()), b(0)), (Some(c.neg(&g)), b(0)), (Some(c.add(&g, &g)), b(0))];
    ctx.bulk("streams", &format!("{} all streams of at most {} of {} values", C::CNAME, d, alpha.len()), || {
        let mut cnt = 0;
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..d {
            seqs = seqs.iter().flat_map(|s| (0..alpha.len()).map(move |i| { let mut t = s.clone(); t.push(i); t })).collect();
            for s in &seqs {
                let mut buf = vec![];
                for i in s { match &alpha[*i] { (Some(q), _) => aff::<C>(q).write(&mut buf).unwrap(), (None, v) => C::BaseField::of(v).write(&mut buf).unwrap() } }
                let mut cur = &buf[..];
                for (k, i) in s.iter().enumerate() {
                    match &alpha[*i] {
                        (Some(q), _) => sa(&AffinePoint::<C>::read(&mut cur).map_err(|e| format!("stream {:?}, value {}: {}", s, k, e))?, q, &|| format!("stream {:?}, value {}", s, k))?,
                        (None, v) => { let y = C::BaseField::read(&mut cur).map_err(|e| format!("stream {:?}, value {}: {}", s, k, e))?; ensure!(y.reduced() && &y.val() == v, "stream {:?}, value {}: {} instead of {}", s, k, y.val(), v); }
                    }
                }
                ensure!(cur.is_empty(), "stream {:?}: {} bytes left", s, cur.len());
                cnt += 1;
            }
        }
        Ok(cnt)
    });
}
fn b_(x: u32) -> B { b(x as u64) }

type Flat = (Vec<(B, B, bool)>, Vec<B>, Vec<usize>);
fn flat_pt<C: Cx>(q: &AffinePoint<C>) -> (B, B, bool) where C::BaseField: Fx, C::ScalarField: Fx { if q.zero { (b(0), b(0), true) } else { (q.x.val(), q.y.val(), false) } }
fn flat_proof<C: Hx>(p: &Proof<C>) -> Flat where C::BaseField: Fx, C::ScalarField: Fx {
    let mut pts = vec![]; let mut fs = vec![]; let mut ns = vec![];
    for l in &[&p.c_wires, &p.c_plonk_t, &p.halo_l, &p.halo_r] { ns.push(l.len()); pts.extend(l.iter().map(flat_pt)); }
    for q in &[p.c_plonk_z, p.c_pis_quotient, p.halo_g, p.schnorr_proof.r] { pts.push(flat_pt(q)); }
    for o in &[&p.o_local, &p.o_right, &p.o_below] {
        for l in &[&o.o_constants, &o.o_plonk_sigmas, &o.o_wires, &o.o_plonk_t, &o.o_old_proofs] { ns.push(l.len()); fs.extend(l.iter().map(|x| x.val())); }
        fs.push(o.o_plonk_z.val()); fs.push(o.o_pi_quotient.val());
    }
    fs.push(p.schnorr_proof.z1.val()); fs.push(p.schnorr_proof.z2.val());
    (pts, fs, ns)
}
fn flat_vk<C: Hx>(v: &VerificationKey<C>) -> Flat where C::BaseField: Fx, C::ScalarField: Fx {
    let mut pts: Vec<_> = v.c_constants.iter().chain(&v.c_s_sigmas).map(flat_pt).collect();
    let mut fs = vec![];
    let mut ns = vec![v.c_constants.len(), v.c_s_sigmas.len(), v.degree, v.num_public_inputs, v.num_gates_without_pis, v.security_bits];
    ns.push(v.pedersen_g_msm_precomputation.is_some() as usize); ns.push(v.fft_precomputation.is_some() as usize);
    if let Some(f) = &v.fft_precomputation {
        // the precomputation is opaque: compare what it computes
        let r = fft_with_precomputation_power_of_2(&(0..v.degree as u64).map(|i| C::ScalarField::u(i * i + 1)).collect::<Vec<_>>(), f);
        fs.extend(r.iter().map(|x| x.val()));
    }
    if let Some(m) = &v.pedersen_g_msm_precomputation {
        let r = msm_execute(m, &(0..v.degree as u64).map(|i| generic::<C::ScalarField>(i)).collect::<Vec<_>>());
        pts.push(flat_pt(&r.to_affine()));
    }
    (pts, fs, ns)
}

struct Fix<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { name: String, proofs: Vec<Proof<C>>, vks: Vec<VerificationKey<C>>, key: VerificationKey<C>, pis: Vec<C::ScalarField> }
fn proofs<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    let sizes: Vec<(usize, usize, usize, usize)> = if ctx.thorough { vec![(0, 1, 0, 0), (1, 0, 0, 1), (10, 3, 20, 2), (3, 2, 90, 3)] } else { vec![(3, 2, 0, 2)] };
    let fixes: Vec<Fix<C>> = sizes.into_iter().map(|(pis, sec, pad, nold)| {
        let (circ, t) = chain::<C>(pis, sec, pad);
        let vk = circ.to_vk();
        let (p1, pi1) = proof_of(&circ, &t, 1, &[], true);
        let mut old = vec![];
        for i in 0..nold as u64 {
            let (p, pi) = proof_of(&circ, &t, 10 + i, &[], true);
            old.push(verify_proof::<C, C::Inner>(&pi, &p, &[], &vk, false).unwrap().unwrap());
        }
        let (p2, _) = proof_of(&circ, &t, 2, &old, false);
        let mut vks = vec![];
        for m in 0..4 { let mut v = vk.clone(); if m & 1 != 0 { v.clear_fft_precomputation(); } if m & 2 != 0 { v.clear_msm_precomputation(); } vks.push(v); }
        let mut none = vk.clone(); none.clear_all(); vks.push(none.clone());
        Fix { name: format!("{} pis={} degree={} old={}", C::CNAME, pis, vk.degree, nold), proofs: vec![p1, p2], vks, key: none, pis: pi1 }
    }).collect();
    for f in &fixes {
        ctx.case("proofs", &format!("{} round trip", f.name), || {
            let mut stream = vec![];
            for p in &f.proofs {
                let want = flat_proof(p);
                let s = cbor_round(p, |q| { ensure!(q == p && flat_proof(q) == want, "a proof reads back different"); Ok(()) }, "proof")?;
                stream.extend(s);
            }
            for v in &f.vks {
                let want = flat_vk(v);
                let s = cbor_round(v, |q| { ensure!(q == v && flat_vk(q) == want, "a verification key reads back different (precomputations {:?})", &want.2[6..]); Ok(()) }, "verification key")?;
                if v.pedersen_g_msm_precomputation.is_none() {
                    let mut both = s.clone(); both.extend(serde_cbor::to_vec(&f.proofs[0]).unwrap());
                    let mut de = serde_cbor::Deserializer::from_slice(&both);
                    let q: VerificationKey<C> = serde::de::Deserialize::deserialize(&mut de).map_err(|e| e.to_string())?;
                    let r: Proof<C> = serde::de::Deserialize::deserialize(&mut de).map_err(|e| e.to_string())?;
                    ensure!(&q == v && r == f.proofs[0], "a key followed by a proof reads back different");
                }
            }
            let back: Vec<Proof<C>> = serde_cbor::Deserializer::from_slice(&stream).into_iter::<Proof<C>>().collect::<Result<_, _>>().map_err(|e| e.to_string())?;
            ensure!(back == f.proofs, "a stream of proofs reads back different");
            ensure!(serde_cbor::to_vec(&f.proofs[0]).unwrap().len() <= 40000, "size");
            Ok(())
        });
        ctx.case("proofs", &format!("{} key and proof read back verify", f.name), || {
            for v in &f.vks {
                let v2: VerificationKey<C> = serde_cbor::from_slice(&serde_cbor::to_vec(v).unwrap()).map_err(|e| e.to_string())?;
                let p2: Proof<C> = serde_cbor::from_slice(&serde_cbor::to_vec(&f.proofs[0]).unwrap()).map_err(|e| e.to_string())?;
                verify_proof::<C, C::Inner>(&f.pis, &p2, &[], &v2, true).map_err(|e| format!("does not verify: {}", e))?;
            }
            Ok(())
        });
    }
    // Every truncation, and every byte altered in several ways: an error or some value, never a panic; points stay on the curve.
    let f = fixes.into_iter().last().unwrap();
    let step = ctx.tier(if C::CNAME == "Tweedledee" { 1 } else { 13 }, 1);
    for (what, enc, is_proof) in vec![("proof", serde_cbor::to_vec(&f.proofs[1]).unwrap(), true), ("key", serde_cbor::to_vec(&f.key).unwrap(), false)] {
        let (name, len) = (f.name.clone(), enc.len());
        ctx.par((0..16usize).collect(), move |&blk| {
            let (lo, hi) = (len * blk / 16, len * (blk + 1) / 16);
            ctx.bulk("malformed", &format!("{} {} bytes {}..{} of {}", name, what, lo, hi, len), || {
                let mut cnt = 0;
                for i in (lo..hi).step_by(step) {
                    let bad = if is_proof { serde_cbor::from_slice::<Proof<C>>(&enc[..i]).is_ok() } else { serde_cbor::from_slice::<VerificationKey<C>>(&enc[..i]).is_ok() };
                    ensure!(!bad, "the first {} of {} bytes of a {} are read as a value", i, len, what);
                    for x in &[1u8, 2, 0x80, 0xff] {
                        let mut e = enc.clone(); e[i] ^= x;
                        // Lengths that claim gigabytes are the serde format's own business; only value bytes and small headers matter here.
                        if is_proof {
                            if let Ok(p) = serde_cbor::from_slice::<Proof<C>>(&e) {
                                ensure!(p.c_wires.iter().chain(&p.c_plonk_t).chain(&p.halo_l).chain(&p.halo_r).chain(&[p.c_plonk_z, p.c_pis_quotient, p.halo_g, p.schnorr_proof.r]).all(|q| of_aff(q).is_ok()), "byte {} altered: a point off the curve was read", i);
                            }
                        } else if let Ok(v) = serde_cbor::from_slice::<VerificationKey<C>>(&e) {
                            ensure!(v.c_constants.iter().chain(&v.c_s_sigmas).all(|q| of_aff(q).is_ok()), "byte {} altered: a point off the curve was read", i);
                        }
                        cnt += 1;
                    }
                    cnt += 1;
                }
                Ok(cnt)
            });
        });
    }
}

fn main() {
    run("C08", "exploration", "distinct = one value, stream, truncation point or altered byte", |ctx| {
        ctx.par((0..15usize).collect(), move |&i| match i {
            0 => fields::<PallasBase>(ctx), 1 => fields::<VestaBase>(ctx), 2 => fields::<TweedledeeBase>(ctx), 3 => fields::<TweedledumBase>(ctx),
            4 => fields::<Bls12377Base>(ctx), 5 => fields::<Bls12377Scalar>(ctx),
            6 => points::<Pallas>(ctx), 7 => points::<Vesta>(ctx), 8 => points::<Tweedledee>(ctx), 9 => points::<Tweedledum>(ctx), 10 => points::<Bls12377>(ctx),
            _ => (),
        });
        proofs::<Tweedledee>(ctx); proofs::<Tweedledum>(ctx); proofs::<Pallas>(ctx); proofs::<Vesta>(ctx);
    })
}
