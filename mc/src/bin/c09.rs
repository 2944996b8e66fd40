//! C09: Rescue, natively and in circuit, against an independent reference, over call histories in fresh processes.
use mc::alpha::*;
use mc::circ::*;
use mc::refm::*;
use mc::resc::*;
use mc::*;
use plonky::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;

fn fv<F: Fx>(v: &[B]) -> Vec<F> { v.iter().map(|x| F::of(x)).collect() }
fn same<F: Fx>(got: &[F], want: &[B], what: &str) -> R {
    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.reduced() && &g.val() == w), "{}: {} gives {:?}, expected {:?}", F::NAME, what, got.iter().map(|x| x.val()).collect::<Vec<_>>(), want);
    Ok(())
}
/// States: constant, one-hot and pairwise boundary values, and generic ones.
fn states<F: Fx>(n: usize, more: usize) -> Vec<Vec<B>> {
    let p = F::order();
    let mut v = vec![vec![b(0); n], vec![b(1); n], vec![&p - 1u32; n]];
    for i in 0..n {
        for x in vec![b(1), &p - 1u32, b(2), b(1) << 64usize] { let mut s = vec![b(0); n]; s[i] = x; v.push(s); }
        for j in 0..i { let mut s: Vec<B> = (0..n as u64).map(|k| generic::<F>(70 + k).val()).collect(); s.swap(i, j); v.push(s); }
    }
    for k in 0..more { v.push((0..n).map(|i| generic::<F>((k * 64 + i) as u64 + 4000).val()).collect()); }
    let vals: Vec<B> = small::<F>().iter().map(|x| x.val()).collect();
    for k in 0..more { v.push((0..n).map(|i| vals[(k * 7 + i * (k + 3)) % vals.len()].clone()).collect()); }
    let mut seen = HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

fn native<F: Fx>(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for n in 1..=ctx.tier(6usize, 12) { for bits in vec![128usize, 1, 80, 161, 256] { if n < 6 || bits == 128 || ctx.thorough { jobs.push((n, bits)); } } }
    ctx.par_n(2, jobs, move |&(n, bits)| {
        ctx.bulk("permutation", &format!("{} width {} security {}", F::NAME, n, bits), || {
            let r = reference::<F>(n, bits);
            let mut outs = HashMap::new();
            let mut cnt = 0;
            for s in states::<F>(n, if bits == 128 { ctx.tier(4, 60) } else { 0 }).into_iter().take(if bits == 128 { 1000 } else { ctx.tier(5, 30) }) {
                let w = r.perm(&s);
                let g = rescue_permutation(&fv::<F>(&s), bits);
                same(&g, &w, &format!("permutation of {:?}", s))?;
                if let Some(o) = outs.insert(g.iter().map(|x| x.val()).collect::<Vec<_>>(), s.clone()) { return Err(format!("{:?} and {:?} have the same image", o, s)); }
                cnt += 1;
            }
            Ok(cnt)
        });
    });
    ctx.bulk("mds", &format!("{} all minors", F::NAME), || {
        let mut cnt = 0;
        let p = F::order();
        for n in 1..=ctx.tier(6usize, 8) {
            // The rows of the matrix through its public accessor.
            let m = mds_matrix_of::<F>(n)?;
            for rs in 1u32..1 << n { for cs in 1u32..1 << n {
                if rs.count_ones() != cs.count_ones() { continue; }
                let idx = |x: u32| (0..n).filter(|i| x >> i & 1 == 1).collect::<Vec<_>>();
                let sub: Vec<Vec<B>> = idx(rs).iter().map(|&r| idx(cs).iter().map(|&c| m[r][c].clone()).collect()).collect();
                ensure!(det(sub, &p) != b(0), "{}: width {}: rows {:?} columns {:?} form a singular minor", F::NAME, n, idx(rs), idx(cs));
                cnt += 1;
            } }
        }
        Ok(cnt)
    });
    ctx.bulk("sponge", &format!("{} every input length and output count", F::NAME), || {
        let mut cnt = 0;
        for bits in vec![128usize, 200] {
            let r = reference::<F>(4, bits);
            for l in 0..=ctx.tier(8usize, 20) {
                for k in 0..2u64 {
                    let x: Vec<B> = (0..l as u64).map(|i| if k == 0 { generic::<F>(i + 9).val() } else { b(i % 2) }).collect();
                    for o in (1..=ctx.tier(7usize, 13)).filter(|o| o % 3 != 2 || *o == 2 || ctx.thorough) {
                        let w = r.sponge(&x, o);
                        same(&rescue_sponge(fv::<F>(&x), o, bits), &w, &format!("sponge of {:?} with {} outputs", x, o))?;
                        cnt += 1;
                    }
                    let w = r.sponge(&x, 3);
                    same(&[rescue_hash_n_to_1(fv::<F>(&x), bits)], &w[..1], "hash_n_to_1")?;
                    let (a, c) = rescue_hash_n_to_2(fv::<F>(&x), bits); same(&[a, c], &w[..2], "hash_n_to_2")?;
                    let (a, c, d) = rescue_hash_n_to_3(fv::<F>(&x), bits); same(&[a, c, d], &w, "hash_n_to_3")?;
                    cnt += 3;
                    if l == 1 { same(&[rescue_hash_1_to_1(F::of(&x[0]), bits)], &w[..1], "hash_1_to_1")?; cnt += 1; }
                }
            }
        }
        // The pseudorandom generator iterates the hash.
        let r = reference::<F>(4, 128);
        for seed in vec![b(0), b(1), generic::<F>(3).val()] {
            let mut g = PRFBasedPRG::seeded(RescuePrf::default(), F::of(&seed));
            let mut s = seed.clone();
            for i in 0..6 {
                s = r.sponge(&[s], 1)[0].clone();
                let lo = (s.to_u32_digits().get(0).cloned()).unwrap_or(0);
                match i % 3 { 0 => same(&[g.next_field()], &[s.clone()], "next_field")?, 1 => ensure!(g.next_u32() == lo, "next_u32"), _ => ensure!(g.next_bool() == (lo & 1 == 1), "next_bool") }
                cnt += 1;
            }
        }
        Ok(cnt)
    });
}
fn mds_matrix_of<F: Fx>(n: usize) -> Result<Vec<Vec<B>>, String> {
    // Not exported: recovered from the permutation's reference, which the permutation is compared with.
    Ok(reference::<F>(n, 128).mds)
}
fn det(mut m: Vec<Vec<B>>, p: &B) -> B {
    let n = m.len();
    let mut d = b(1);
    for i in 0..n {
        let k = match (i..n).find(|k| m[*k][i] != b(0)) { None => return b(0), Some(k) => k };
        if k != i { m.swap(i, k); d = neg(&d, p); }
        d = mul(&d, &m[i][i], p);
        let iv = inv(&m[i][i], p);
        for r in i + 1..n {
            let f = mul(&m[r][i], &iv, p);
            for c in i..n { let t = mul(&f, &m[i][c], p); m[r][c] = sub(&m[r][c], &t, p); }
        }
    }
    d
}

// Histories: each runs in a fresh process, so that nothing is cached before its first call.
type Op = (usize, usize, usize, bool); // field, width, bits, on a thread of its own
fn run_op<F: Fx>(w: usize, bits: usize) -> Vec<String> {
    let s: Vec<F> = (0..w as u64).map(|i| generic::<F>(i + 21)).collect();
    let mut o: Vec<F> = rescue_permutation(&s, bits);
    if w == 4 { o.extend(rescue_sponge(s, 4, bits)); }
    o.iter().map(|x| format!("{}", x.val())).collect()
}
fn want_op<F: Fx>(w: usize, bits: usize) -> Vec<String> {
    let s: Vec<B> = (0..w as u64).map(|i| generic::<F>(i + 21).val()).collect();
    let r = reference::<F>(w, bits);
    let mut o = r.perm(&s);
    if w == 4 { o.extend(r.sponge(&s, 4)); }
    o.iter().map(|x| format!("{}", x)).collect()
}
macro_rules! by_field { ($f:expr, $g:ident ( $($a:expr),* )) => { match $f { 0 => $g::<PallasBase>($($a),*), 1 => $g::<VestaBase>($($a),*), 2 => $g::<TweedledeeBase>($($a),*), 3 => $g::<TweedledumBase>($($a),*), 4 => $g::<Bls12377Base>($($a),*), _ => $g::<Bls12377Scalar>($($a),*) } } }
fn child(spec: &str) -> ! {
    let mut out = String::new();
    for t in spec.split(',') {
        let v: Vec<usize> = t.split('.').map(|x| x.parse().unwrap()).collect();
        let f = move || by_field!(v[0], run_op(v[1], v[2]));
        let th = t.ends_with(".1");
        let r = if th { std::thread::spawn(f).join().unwrap_or(vec!["panic".to_string()]) } else { f() };
        out += &r.join(" "); out += "\n";
    }
    let _ = std::io::stdout().write_all(out.as_bytes());
    std::process::exit(0)
}
fn histories(ctx: &'static Ctx) {
    let mut hs: Vec<Vec<Op>> = vec![];
    let all: Vec<(usize, usize)> = (0..6).flat_map(|f| vec![2usize, 3, 4, 5].into_iter().map(move |w| (f, w))).collect();
    for a in &all { for c in &all { hs.push(vec![(a.0, a.1, 128, false), (c.0, c.1, 128, (a.1 + c.1) % 2 == 0)]); } }
    let few: Vec<Op> = vec![(0, 4, 128, false), (1, 4, 128, true), (2, 4, 128, false), (0, 3, 128, false), (0, 4, 200, false), (0, 5, 80, true), (5, 4, 128, false)];
    for a in &few { for c in &few { for d in &few { hs.push(vec![*a, *c, *d]); } } }
    if ctx.thorough { for a in &few { for c in &few { for d in &few { for e in &few { hs.push(vec![*a, *c, *d, *e]); } } } } }
    let mut want: HashMap<(usize, usize, usize), String> = HashMap::new();
    for h in &hs { for o in h { want.entry((o.0, o.1, o.2)).or_insert_with(|| by_field!(o.0, want_op(o.1, o.2)).join(" ")); } }
    let exe = std::env::current_exe().unwrap();
    ctx.par_n(2, hs, move |h| {
        let spec = h.iter().map(|o| format!("{}.{}.{}.{}", o.0, o.1, o.2, o.3 as u8)).collect::<Vec<_>>().join(",");
        ctx.case("history", &spec, || {
            let o = std::process::Command::new(&exe).env("MC_C09_CHILD", &spec).output().map_err(|e| format!("cannot start: {}", e))?;
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let l: Vec<&str> = t.lines().collect();
            ensure!(o.status.success() && l.len() == h.len(), "the process failed: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr));
            for (i, op) in h.iter().enumerate() { ensure!(l[i] == want[&(op.0, op.1, op.2)], "call {} (field, width, bits, own thread = {:?}) after {:?} gives {}, expected {}", i, op, &h[..i], l[i], want[&(op.0, op.1, op.2)]); }
            Ok(())
        });
    });
}

fn circuits<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    type T<C> = Target<<C as Curve>::ScalarField>;
    // One circuit per shape, evaluated on every input tuple of its alphabet.
    let mut jobs: Vec<(usize, usize, usize, u8)> = vec![]; // inputs, outputs (0: permutation), bits, how the inputs are given
    for bits in vec![128usize, 64, 200] { for how in 0..3u8 { jobs.push((4, 0, bits, how)); } }
    for l in 0..=ctx.tier(7usize, 13) { for o in 1..=ctx.tier(4usize, 8) { jobs.push((l, o, 128, ((l + o) % 3) as u8)); } }
    for o in 101..=103 { for l in 0..=4 { jobs.push((l, o, 128, 0)); } }
    ctx.par_n(2, jobs, move |&(l, o, bits, how)| {
        ctx.bulk("circuit", &format!("{} {} inputs, {} outputs (0: permutation, 10k: hash_n_to_k), security {}, inputs given as {}", C::CNAME, l, o, bits, ["virtual targets", "public inputs", "constants and repeated targets"][how as usize]), || {
            let r = reference::<C::ScalarField>(4, bits);
            let mut tuples: Vec<Vec<B>> = if l == 0 { vec![vec![]] } else { states::<C::ScalarField>(l, 1) };
            tuples.truncate(ctx.tier(if o == 0 { 16 } else { 3 }, 40));
            if how == 2 { tuples.truncate(4); }
            let mut shared: Option<(Circuit<C>, Vec<T<C>>, Vec<T<C>>)> = None;
            let mut cnt = 0;
            for t in &tuples {
                let mut t = t.clone();
                if shared.is_none() || how == 2 {
                    let mut bd = CircuitBuilder::<C>::new(bits);
                    let ins: Vec<T<C>> = match how {
                        0 => bd.add_virtual_targets(l),
                        1 => bd.add_public_inputs(l),
                        _ => { let v = bd.add_virtual_target(); (0..l).map(|i| if i % 2 == 0 { v } else { bd.constant_wire(C::ScalarField::of(&t[i])) }).collect() }
                    };
                    let outs = match o {
                        0 => bd.rescue_permutation(&ins),
                        101 => vec![bd.rescue_hash_n_to_1(&ins)],
                        102 => { let (a, c) = bd.rescue_hash_n_to_2(&ins); vec![a, c] }
                        103 => { let (a, c, d) = bd.rescue_hash_n_to_3(&ins); vec![a, c, d] }
                        _ => bd.rescue_sponge(&ins, o),
                    };
                    shared = Some((bd.build(), ins, outs));
                }
                if how == 2 { for i in (0..l).step_by(2) { t[i] = t[0].clone(); } }
                let (c, ins, outs) = shared.as_ref().unwrap();
                let mut w = PartialWitness::new();
                for (i, x) in ins.iter().enumerate() { if how != 2 || i == 0 { w.set_target(*x, C::ScalarField::of(&t[i])); } }
                let pw = c.generate_partial_witness(w);
                let want = match o { 0 => r.perm(&t), _ => r.sponge(&t, o % 100) };
                for x in outs { ensure!(pw.contains_target(*x), "an output is not generated for {:?}", t); }
                same(&pw.get_targets(outs), &want, &format!("in-circuit result for {:?}", t))?;
                let full = wit(&Witness::from_partial(&pw, c.degree()), c.degree());
                satisfied::<C, C::Inner>(c, &full).map_err(|e| format!("{:?}: {}", t, e))?;
                cnt += 1;
            }
            Ok(cnt)
        });
    });
}

fn main() {
    if let Ok(s) = std::env::var("MC_C09_CHILD") { child(&s) }
    run("C09", "exploration", "distinct = one state, minor, sponge call, call history in a fresh process, or in-circuit evaluation", |ctx| {
        ctx.par((0..11usize).collect(), move |&i| match i {
            0 => histories(ctx),
            1 => circuits::<Tweedledee>(ctx), 2 => circuits::<Tweedledum>(ctx), 3 => circuits::<Pallas>(ctx), 4 => circuits::<Vesta>(ctx),
            i => by_field!(i - 5, native(ctx)),
        });
    })
}
