//! Reference Rescue.
use crate::alpha::*;
use crate::refm::*;
use num::Integer;
use rand::RngCore;
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha8Rng;

/// Parameters and permutation, from the definition: Cauchy MDS matrix 1/(n + r - c), round constants drawn
/// from ChaCha8 with seed 1337 by rejection sampling, max(10, ceil(bits / 2n)) double rounds.
pub struct Ref { pub p: B, pub alpha: B, pub root: B, pub mds: Vec<Vec<B>>, pub rc: Vec<(Vec<B>, Vec<B>)> }
impl Ref {
    pub fn new(p: B, limbs: usize, n: usize, bits: usize) -> Ref {
        let m = &p - 1u32;
        let alpha = (3u64..).map(b).find(|k| k.gcd(&m) == b(1)).unwrap();
        // alpha^-1 mod m = (1 + k m) / alpha for the k that makes it whole
        let root = (1u64..).map(|k| b(1) + &m * k).find(|x| alpha_divides(&alpha, x)).unwrap() / &alpha;
        let mds = (0..n).map(|r| (0..n).map(|c| inv(&b((n + r - c) as u64), &p)).collect()).collect();
        let mut rng = ChaCha8Rng::seed_from_u64(1337);
        let strip = 64 * limbs - p.bits() as usize;
        let mut draw = || loop {
            let mut v: Vec<u64> = (0..limbs).map(|_| rng.next_u64()).collect();
            v[limbs - 1] >>= strip;
            if big(&v) < p { return (big(&v) * inv(&((b(1) << (64 * limbs)) % &p), &p)) % &p; }
        };
        let rounds = ((bits + 2 * n - 1) / (2 * n)).max(10);
        let rc = (0..rounds).map(|_| { let a = (0..n).map(|_| draw()).collect(); let c = (0..n).map(|_| draw()).collect(); (a, c) }).collect();
        Ref { p, alpha, root, mds, rc }
    }
    fn layer(&self, s: Vec<B>, e: &B, k: &[B]) -> Vec<B> {
        let s: Vec<B> = s.iter().map(|x| pw(x, e, &self.p)).collect();
        (0..s.len()).map(|r| (0..s.len()).fold(k[r].clone(), |a, c| (a + &self.mds[r][c] * &s[c]) % &self.p)).collect()
    }
    pub fn perm(&self, s: &[B]) -> Vec<B> {
        let mut s = s.to_vec();
        for (a, c) in &self.rc { s = self.layer(s, &self.root, a); s = self.layer(s, &self.alpha, c); }
        s
    }
    pub fn sponge(&self, x: &[B], out: usize) -> Vec<B> {
        let mut s = vec![b(0); 4];
        for ch in x.chunks(3) { for i in 0..ch.len() { s[i] = add(&s[i], &ch[i], &self.p); } s = self.perm(&s); }
        let mut o = vec![];
        loop { for i in 0..3 { o.push(s[i].clone()); if o.len() == out { return o; } } s = self.perm(&s); }
    }
}
fn alpha_divides(a: &B, x: &B) -> bool { divides(a, x) }
pub fn reference<F: Fx>(n: usize, bits: usize) -> Ref { Ref::new(F::order(), F::W, n, bits) }
