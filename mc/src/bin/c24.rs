//! C24: lookup tables: construction, row compression, row-wise and column-wise proofs.
use mc::alpha::*;
use mc::circ::*;
use mc::*;
use plonky::*;
use plookup::table::Table;

fn one<F: Field>() -> F { <F as Field>::ONE }
fn al<F: Fx>(k: usize) -> F { match k { 0 => F::ZERO, 1 => one(), 2 => generic::<F>(60), 3 => F::NEG_ONE, _ => generic::<F>(60 + k as u64) } }
fn lists(n: usize, len: usize) -> Vec<Vec<usize>> { (0..n.pow(len as u32)).map(|mut k| (0..len).map(|_| { let d = k % n; k /= n; d }).collect()).collect() }
fn arr<F: Fx, const N: usize>(v: &[F]) -> [F; N] { let mut a = [F::ZERO; N]; a.copy_from_slice(v); a }

/// Functions telling every argument and its position apart.
fn funs<F: Fx, const M: usize>() -> Vec<(&'static str, Box<dyn Fn([F; M]) -> F>)> {
    vec![("0", Box::new(|_| F::ZERO)), ("7", Box::new(|_| F::from_canonical_u64(7))), ("first argument", Box::new(|a| a[0])), ("last argument", Box::new(|a| a[M - 1])),
        ("weighted sum", Box::new(|a| a.iter().enumerate().fold(one(), |s, (i, x)| s + *x * F::from_canonical_usize(i + 2)))),
        ("product and first", Box::new(|a| a.iter().fold(one(), |s: F, x| s * (*x + one())) + a[0] * a[0]))]
}
fn functions<F: Fx, const M: usize, const N: usize>(ctx: &'static Ctx, fname: &'static str, alpha: usize, maxlen: usize, cart: usize) {
    ctx.bulk("tables of a function", &format!("{} {} arguments, all domains of up to {} of the {}^{} tuples", fname, M, maxlen, alpha, M), || {
        let tuples: Vec<[F; M]> = lists(alpha, M).iter().map(|t| arr(&t.iter().map(|k| al(*k)).collect::<Vec<F>>())).collect();
        let mut cnt = 0;
        for (name, f) in funs::<F, M>() { for len in 0..=maxlen { for d in lists(tuples.len(), len) {
            let dom: Vec<[F; M]> = d.iter().map(|k| tuples[*k]).collect();
            let t = Table::<F, N>::from_function(&*f, &dom);
            cnt += 1;
            ensure!(t.0.len() == dom.len(), "{} on {:?}: {} rows", name, d, t.0.len());
            for (i, r) in t.0.iter().enumerate() { ensure!(r[..M] == dom[i][..] && r[N - 1] == f(dom[i]), "{} on {:?}: row {}", name, d, i); }
        } } }
        Ok(cnt)
    });
    ctx.bulk("tables of a function on a Cartesian product", &format!("{} {} arguments, all domains of up to {} of {} values", fname, M, cart, alpha + 1), || {
        let mut cnt = 0;
        for (name, f) in funs::<F, M>() { for len in 0..=cart { for d in lists(alpha + 1, len) {
            let dom: Vec<F> = d.iter().map(|k| al(*k)).collect();
            let t = Table::<F, N>::from_function_cartesian(&*f, &dom);
            cnt += 1;
            ensure!(t.0.len() == len.pow(M as u32), "{} on {:?}: {} rows", name, d, t.0.len());
            for (i, r) in t.0.iter().enumerate() {
                // The last argument runs fastest.
                let mut k = i; let mut want = vec![]; for _ in 0..M { want.push(dom[k % len]); k /= len; } want.reverse();
                ensure!(r[..M] == want[..] && r[N - 1] == f(arr(&want)), "{} on {:?}: row {}", name, d, i);
            }
        } } }
        Ok(cnt)
    });
}

/// The compression of a table that has the row (0, …, 0, 1, 0) at `p`: the weights of the columns are powers of that row's value.
fn compression<F: Fx, const N: usize>(ctx: &'static Ctx, fname: &'static str, alpha: usize, maxrows: usize) {
    ctx.bulk("row compression", &format!("{} width {}, all tables of up to {} rows over {} values", fname, N, maxrows, alpha), || {
        let mut cnt = 0;
        let mut seen: std::collections::HashMap<Vec<u64>, Vec<usize>> = Default::default();
        let probe: Vec<usize> = (0..N).map(|i| if i + 2 == N { 1 } else { 0 }).collect();
        let rows = lists(alpha, N);
        for n in 0..=maxrows { for pick in lists(rows.len(), n) { for p in 0..=n {
            let mut v: Vec<Vec<usize>> = pick.iter().map(|k| rows[*k].clone()).collect();
            v.insert(p, probe.clone());
            let t: Table<F, N> = Table(v.iter().map(|r| arr(&r.iter().map(|k| al(*k)).collect::<Vec<F>>())).collect());
            let c = t.to_vec();
            cnt += 1;
            ensure!(c.len() == n + 1, "{:?}: {} values", v, c.len());
            let a = c[p];
            ensure!(!a.is_zero() && a != one() && a != F::NEG_ONE, "{:?}: a trivial challenge", v);
            for (i, r) in t.0.iter().enumerate() {
                let mut w = one::<F>(); let mut want = F::ZERO;
                for x in r.iter().rev() { want = want + w * *x; w = w * a; }
                ensure!(c[i] == want, "{:?}: row {} is not compressed with the powers of the challenge", v, i);
                for j in 0..i { ensure!((c[i] == c[j]) == (v[i] == v[j]), "{:?}: rows {} and {}", v, j, i); }
            }
            // The same challenge only for the same table, up to zeros at the end, which the sponge does not count.
            let mut flat: Vec<usize> = v.concat(); while flat.last() == Some(&0) { flat.pop(); }
            if let Some(o) = seen.insert(a.to_canonical_u64_vec(), flat.clone()) { ensure!(o == flat, "the tables {:?} and {:?} have the same challenge", o, flat); }
        } } }
        Ok(cnt)
    });
}
/// Every cell of larger tables moves the challenge.
fn whole<F: Fx, const N: usize>(ctx: &'static Ctx, fname: &'static str, sizes: Vec<usize>) {
    ctx.bulk("challenge of larger tables", &format!("{} width {}, sizes {:?}", fname, N, sizes), || {
        let mut cnt = 0;
        for n in sizes.clone() { for p in vec![0, n / 2, n] {
            let mut rows: Vec<[F; N]> = (0..n).map(|i| arr(&(0..N).map(|j| generic::<F>((1000 + i * 50 + j) as u64)).collect::<Vec<F>>())).collect();
            rows.insert(p, arr(&(0..N).map(|i| if i + 2 == N { one() } else { F::ZERO }).collect::<Vec<F>>()));
            let a = |r: &Vec<[F; N]>| Table::<F, N>(r.clone()).to_vec()[r.iter().position(|x| *x == rows[p]).unwrap()];
            let base = a(&rows);
            for i in 0..=n { if i == p { continue; }
                for j in 0..N { let mut r = rows.clone(); r[i][j] = r[i][j] + one(); cnt += 1; ensure!(a(&r) != base, "{} rows: cell {} {} does not enter the challenge", n, i, j); let mut r = rows.clone(); r[i][j] = F::ZERO; ensure!(a(&r) != base, "{} rows: cell {} {} set to zero", n, i, j); }
                let mut r = rows.clone(); r.remove(i); ensure!(a(&r) != base, "{} rows: row {} does not enter the challenge", n, i);
                let mut r = rows.clone(); r.insert(i, [F::ZERO; N]); ensure!(a(&r) != base, "{} rows: a zero row before {}", n, i);
                for k in 0..i { let mut r = rows.clone(); r.swap(i, k); ensure!(a(&r) != base, "{} rows: rows {} and {} exchanged", n, i, k); }
                for j in 1..N { let mut r = rows.clone(); r[i].swap(0, j); ensure!(a(&r) != base, "{} rows: cells of row {} exchanged", n, i); }
            }
        } }
        Ok(cnt)
    });
}

fn tab<F: Fx, const N: usize>(k: usize, n: usize) -> Vec<[F; N]> {
    let mut t: Vec<[F; N]> = (0..n).map(|i| arr(&(0..N).map(|j| generic::<F>((300 + i * 40 + j) as u64)).collect::<Vec<F>>())).collect();
    match k { 0 => { t[0] = [F::ZERO; N]; } 1 => { for i in 0..n { for j in 0..N { t[i][j] = F::from_canonical_usize((i >> j) & 1); } t[i][N - 1] = F::from_canonical_usize(i); } } _ => { t[n - 1] = [one(); N]; } }
    t
}
fn cols<F: Fx, const N: usize>(w: &[[F; N]]) -> [Vec<F>; N] where [Vec<F>; N]: Default { let mut c: [Vec<F>; N] = Default::default(); for r in w { for j in 0..N { c[j].push(r[j]); } } c }
fn proving<C: Hx, const N: usize>(ctx: &'static Ctx, cases: Vec<(usize, usize, Vec<usize>)>) where C::BaseField: Fx, C::ScalarField: Fx, [Vec<C::ScalarField>; N]: Default {
    ctx.par(cases, move |(k, n, idx)| { ctx.bulk("lookups of table rows", &format!("{} width {} table {} of {} rows, lookups {:?}", C::CNAME, N, k, n, idx), || {
        type S<C> = <C as Curve>::ScalarField;
        let rows = tab::<S<C>, N>(*k, *n);
        let t: Table<S<C>, N> = Table(rows.clone());
        let w: Vec<[S<C>; N]> = idx.iter().map(|i| rows[*i]).collect();
        let row = t.prove_row::<C>(&Table(w.clone())).map_err(|e| format!("row-wise: {}", e))?;
        t.verify(&row).map_err(|e| format!("row-wise proof: {}", e))?;
        let col = t.prove_column::<C>(&cols(&w)).map_err(|e| format!("column-wise: {}", e))?;
        t.verify(&col).map_err(|e| format!("column-wise proof: {}", e))?;
        ensure!(row.c_t == col.c_t && row.n == col.n, "the two proofs are for different tables");
        let mut cnt = 2;
        if idx.len() == 1 {
            let mut other: Vec<Vec<[S<C>; N]>> = vec![];
            for i in 0..*n { for j in 0..N { let mut u = rows.clone(); u[i][j] = u[i][j] + one(); other.push(u); }
                let mut u = rows.clone(); u.remove(i); other.push(u);
                let mut u = rows.clone(); u.insert(i, [generic(9999); N]); other.push(u);
                for j in 0..i { let mut u = rows.clone(); u.swap(i, j); other.push(u); }
                for j in 1..N { let mut u = rows.clone(); u[i].swap(0, j); other.push(u); } }
            other.push(vec![]);
            for u in other { if u == rows { continue; } cnt += 2; let u = Table(u);
                for (p, x) in vec![("row", &row), ("column", &col)] { let r = catch(|| u.verify(x).is_err()).map_err(|e| format!("another table: panic: {}", e))?; ensure!(r, "{}-wise proof accepted for another table of {} rows", p, u.0.len()); } }
        }
        Ok(cnt)
    }); });
}
/// Rows that are not in the table, at every position of the lookups.
fn foreign<C: Hx, const N: usize>(ctx: &'static Ctx, ks: Vec<usize>, ns: Vec<usize>, lens: Vec<usize>) where C::BaseField: Fx, C::ScalarField: Fx, [Vec<C::ScalarField>; N]: Default {
    type S<C> = <C as Curve>::ScalarField;
    for k in ks { for n in ns.clone() { let lens = lens.clone(); ctx.bulk("lookups with a foreign row", &format!("{} width {} table {} of {} rows, {:?} lookups", C::CNAME, N, k, n, lens), || {
        let rows = tab::<S<C>, N>(k, n);
        let t: Table<S<C>, N> = Table(rows.clone());
        let z = t.to_vec();
        let mut bad: Vec<(String, [S<C>; N])> = vec![];
        for i in 0..n {
            for j in 0..N { for (d, name) in vec![(one::<S<C>>(), "+ 1"), (-one::<S<C>>(), "- 1"), (-rows[i][j], ":= 0"), (generic(77), "+ a generic value")] { let mut r = rows[i]; r[j] = r[j] + d; bad.push((format!("row {} with cell {} {}", i, j, name), r)); } }
            for a in 0..N { for b in 0..a { let mut r = rows[i]; r.swap(a, b); bad.push((format!("row {} with cells {} and {} exchanged", i, a, b), r));
                let mut r = rows[i]; r[a] = r[a] + one(); r[b] = r[b] - one(); bad.push((format!("row {} with its sum kept", i), r)); } }
            let mut r = rows[i]; r.reverse(); bad.push((format!("row {} reversed", i), r));
            let mut r = rows[i]; r.rotate_left(1); bad.push((format!("row {} rotated", i), r));
            for l in 0..n { for j in 1..N { let mut r = rows[i]; r[j..].copy_from_slice(&rows[l][j..]); bad.push((format!("head of row {}, tail of {}", i, l), r)); } }
            // A row with the same compressed value.
            let mut r = [S::<C>::ZERO; N]; r[N - 1] = z[i]; bad.push((format!("a row compressing like row {}", i), r));
        }
        bad.push(("the zero row".into(), [S::<C>::ZERO; N]));
        let mut cnt = 0;
        for (name, r) in bad { if rows.contains(&r) { continue; }
            for len in lens.clone() { for p in 0..len {
                let w: Vec<[S<C>; N]> = (0..len).map(|i| if i == p { r } else { rows[i % n] }).collect();
                cnt += 2;
                let x = catch(|| t.prove_row::<C>(&Table(w.clone())).map(|p| t.verify(&p).is_ok()).unwrap_or(false)).map_err(|e| format!("{} at {}: panic: {}", name, p, e))?;
                ensure!(!x, "{} at {} of {}: proved row-wise and accepted", name, p, len);
                let x = catch(|| t.prove_column::<C>(&cols(&w)).map(|p| t.verify(&p).is_ok()).unwrap_or(false)).map_err(|e| format!("{} at {}: panic: {}", name, p, e))?;
                ensure!(!x, "{} at {} of {}: proved column-wise and accepted", name, p, len);
            } }
        }
        Ok(cnt)
    }); } }
}
/// Columns of different lengths list no rows.
fn ragged<C: Hx, const N: usize>(ctx: &'static Ctx, maxlen: usize) where C::BaseField: Fx, C::ScalarField: Fx, [Vec<C::ScalarField>; N]: Default {
    type S<C> = <C as Curve>::ScalarField;
    ctx.bulk("columns of different lengths", &format!("{} width {}, all lengths up to {}", C::CNAME, N, maxlen), || {
        let rows = tab::<S<C>, N>(2, 3);
        let t: Table<S<C>, N> = Table(rows.clone());
        let mut cnt = 0;
        for l in lists(maxlen + 1, N) {
            if l.iter().all(|x| *x == l[0]) { continue; }
            for foreign in 0..2 {
                let mut c: [Vec<S<C>>; N] = Default::default();
                for j in 0..N { for i in 0..l[j] { let mut x = rows[i % 3][j]; if foreign == 1 && i + 1 == l[j] { x = x + one(); } c[j].push(x); } }
                cnt += 1;
                let r = catch(|| t.prove_column::<C>(&c).is_err()).map_err(|e| format!("lengths {:?}: panic: {}", l, e))?;
                ensure!(r, "lengths {:?}: proved", l);
            }
        }
        Ok(cnt)
    });
}
fn cases(deep: bool) -> Vec<(usize, usize, Vec<usize>)> {
    let mut v = vec![];
    for k in 0..3 { for (n, len) in vec![(1, 3), (2, 2), (3, 2), (4, 1)] { for l in 0..=len + deep as usize { for i in lists(n, l) { if deep || (k + n + i.iter().sum::<usize>()) % 2 == 0 || l < 2 { v.push((k, n, i)); } } } } }
    for n in vec![5usize, 7, 8, 9] { for l in vec![3usize, 4, 7, 8] { v.push((n % 3, n, (0..l).map(|i| (i * i + l) % n).collect())); } }
    v
}
fn main() {
    run("C24", "exploration", "distinct = one (function, domain), one table, or one (table, lookups)", |ctx| {
        let d = ctx.thorough;
        functions::<TweedledeeBase, 1, 2>(ctx, "TweedledeeBase", 4, if d { 5 } else { 4 }, 4);
        functions::<TweedledumBase, 2, 3>(ctx, "TweedledumBase", 3, if d { 4 } else { 3 }, if d { 4 } else { 3 });
        functions::<PallasBase, 3, 4>(ctx, "PallasBase", 2, if d { 4 } else { 3 }, if d { 4 } else { 3 });
        functions::<VestaBase, 4, 5>(ctx, "VestaBase", 2, 2, if d { 3 } else { 2 });
        functions::<Bls12377Scalar, 2, 3>(ctx, "Bls12377Scalar", 2, 3, 3);
        compression::<TweedledeeBase, 2>(ctx, "TweedledeeBase", 3, if d { 3 } else { 2 });
        compression::<TweedledumBase, 3>(ctx, "TweedledumBase", if d { 3 } else { 2 }, 2);
        compression::<PallasBase, 4>(ctx, "PallasBase", 2, if d { 2 } else { 1 });
        compression::<VestaBase, 5>(ctx, "VestaBase", 2, 1);
        whole::<TweedledeeBase, 2>(ctx, "TweedledeeBase", vec![1, 2, 3, 5, 8]);
        whole::<VestaBase, 3>(ctx, "VestaBase", vec![1, 2, 4, 7]);
        whole::<PallasBase, 5>(ctx, "PallasBase", vec![1, 3]);
        proving::<Tweedledee, 2>(ctx, cases(d));
        proving::<Tweedledum, 3>(ctx, cases(d).into_iter().enumerate().filter(|(i, _)| d || i % 4 == 0).map(|x| x.1).collect());
        proving::<Vesta, 1>(ctx, cases(d).into_iter().enumerate().filter(|(i, _)| d || i % 6 == 0).map(|x| x.1).collect());
        proving::<Pallas, 5>(ctx, cases(d).into_iter().enumerate().filter(|(i, _)| d || i % 6 == 1).map(|x| x.1).collect());
        foreign::<Tweedledee, 2>(ctx, vec![0, 1, 2], vec![2, 3, 5], vec![1, 2, 3, 4]);
        foreign::<Pallas, 3>(ctx, vec![0, 1, 2], vec![2, 4], vec![1, 3, 7]);
        foreign::<Vesta, 5>(ctx, vec![0, 2], vec![3], vec![1, 4]);
        ragged::<Tweedledee, 2>(ctx, 4); ragged::<Vesta, 3>(ctx, 2);
    });
}
