//! A witness of a circuit as a state over copy classes, with exhaustive substitution of generated values.
//!
//! The honest state comes from the code's own witness generation. A fault replaces generated values by alternatives,
//! re-runs the circuit's own generators downstream of them (a generator whose value was replaced stays off), and then
//! evaluates the code's gate constraints on every row whose window changed. Copy constraints hold by construction.
use crate::alpha::*;
use crate::circ::*;
use crate::refm::*;
use crate::*;
use plonky::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Model<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx {
    pub c: Circuit<C>,
    class: HashMap<Target<C::ScalarField>, usize>,
    n: usize,
    rows: Vec<[usize; 9]>,
    windows: Vec<Vec<usize>>,                          // class -> rows whose constraints read it
    deps: Vec<Vec<(Target<C::ScalarField>, usize)>>,
    users: Vec<Vec<usize>>,                            // class -> generators reading it
    writers: Vec<Vec<usize>>,                          // class -> generators populating it
    prim: Vec<Option<usize>>,                          // class -> the gate generator that computes it in an honest run, if one does
    pub outs: Vec<Vec<(Target<C::ScalarField>, usize)>>, // targets each generator populates
}
pub type St<F> = Vec<Option<F>>;
pub type Fault<F> = Vec<(usize, F)>; // class := value

impl<C: Hx> Model<C> where C::BaseField: Fx, C::ScalarField: Fx {
    /// Circuits without public inputs only.
    pub fn new(c: Circuit<C>) -> Self {
        assert_eq!(c.num_public_inputs, 0);
        let g = c.degree();
        let mut m = Model { class: HashMap::new(), n: 0, rows: vec![], windows: vec![], deps: vec![], users: vec![], outs: vec![], writers: vec![], prim: vec![], c };
        for i in 0..g { let mut r = [0; 9]; for j in 0..WIRES { r[j] = m.cls(Target::Wire(Wire { gate: i, input: j })); } m.rows.push(r); }
        m.deps = (0..m.c.generators.len()).map(|i| { let d = m.c.generators[i].dependencies(); d.into_iter().map(|t| (t, m.cls(t))).collect() }).collect();
        m.finish();
        m
    }
    fn finish(&mut self) {
        let g = self.c.degree();
        self.windows = vec![vec![]; self.n];
        for i in 0..g { for k in vec![i, (i + 1) % g, (i + GRID) % g] { for j in 0..WIRES { let w = &mut self.windows[self.rows[k][j]]; if w.last() != Some(&i) && !w.contains(&i) { w.push(i); } } } }
        self.users = vec![vec![]; self.n];
        for (i, d) in self.deps.iter().enumerate() { for (_, c) in d { if !self.users[*c].contains(&i) { self.users[*c].push(i); } } }
    }
    pub fn cls(&mut self, t: Target<C::ScalarField>) -> usize {
        if let Some(c) = self.class.get(&t) { return *c; }
        for m in self.c.routing_target_partitions.get_partition(t) { self.class.insert(*m, self.n); }
        self.n += 1;
        if !self.windows.is_empty() { self.windows.push(vec![]); self.users.push(vec![]); }
        self.n - 1
    }
    pub fn of(&self, t: Target<C::ScalarField>) -> usize { self.class[&t] }
    pub fn get(&self, s: &St<C::ScalarField>, t: Target<C::ScalarField>) -> C::ScalarField { s[self.of(t)].unwrap_or(C::ScalarField::ZERO) }
    /// State of the code's own witness generation; every member of a class must agree.
    pub fn honest(&mut self, inp: &[(Target<C::ScalarField>, C::ScalarField)]) -> Result<St<C::ScalarField>, String> {
        let mut w = PartialWitness::new();
        for (t, v) in inp { self.cls(*t); if !w.contains_target(*t) { w.set_target(*t, *v); } }
        let w = self.c.generate_partial_witness(w);
        for t in w.all_populated_targets() { self.cls(t); }
        let mut s: St<C::ScalarField> = vec![None; self.n];
        for (t, c) in &self.class {
            if w.contains_target(*t) {
                let v = w.get_target(*t);
                if let Some(o) = s[*c] { ensure!(o == v, "copies of {:?} have different values", t); }
                s[*c] = Some(v);
            }
        }
        if self.outs.is_empty() {
            for g in 0..self.c.generators.len() {
                let o = self.fire(g, &s).unwrap_or_default();
                self.outs.push(o.into_iter().map(|(t, c, _)| (t, c)).collect());
            }
            self.writers = vec![vec![]; self.n];
            for (g, o) in self.outs.iter().enumerate() { for (_, c) in o { self.writers[*c].push(g); } }
            // Who computes each class first, running everything as soon as it is ready.
            self.prim = vec![None; self.n];
            let mut have: Vec<bool> = vec![false; self.n];
            for (t, _) in inp { have[self.class[t]] = true; }
            let mut left: Vec<usize> = (0..self.outs.len()).collect();
            loop {
                let (ready, rest): (Vec<usize>, Vec<usize>) = left.iter().partition(|g| self.deps[**g].iter().all(|(_, c)| have[*c]));
                if ready.is_empty() { break; }
                left = rest;
                let mut fresh = vec![];
                for g in ready { for (t, c) in &self.outs[g] { if !have[*c] { fresh.push(*c); if self.prim[*c].map_or(true, |o| !matches!(self.outs[o][0].0, Target::Wire(_))) && matches!(t, Target::Wire(_)) { self.prim[*c] = Some(g); } } } }
                for c in fresh { have[c] = true; }
            }
            for o in &mut self.outs { o.sort_by_key(|(t, _)| (match t { Target::VirtualTarget(v) => (0, v.index, 0), Target::Wire(w) => (1, w.gate, w.input), _ => (2, 0, 0) })); }
        }
        Ok(s)
    }
    fn fire(&self, g: usize, s: &St<C::ScalarField>) -> Option<Vec<(Target<C::ScalarField>, usize, C::ScalarField)>> {
        let mut w = PartialWitness::new();
        for (t, c) in &self.deps[g] { if !w.contains_target(*t) { w.set_target(*t, s[*c]?); } }
        let r = silent(|| self.c.generators[g].generate(&self.c.gate_constants, &w))?;
        let mut o = vec![];
        for t in r.all_populated_targets() { o.push((t, *self.class.get(&t)?, r.get_target(t))); }
        Some(o)
    }
    /// Runs generators reachable from `queue` until nothing changes; classes in `pinned` keep their values.
    fn propagate(&self, s: &mut St<C::ScalarField>, pinned: &BTreeSet<usize>, off: &BTreeSet<usize>, queue: Vec<usize>) -> BTreeSet<usize> {
        let mut changed = BTreeSet::new();
        let mut q: BTreeSet<usize> = queue.into_iter().collect();
        let mut runs: BTreeMap<usize, u32> = BTreeMap::new();
        while let Some(&g) = q.iter().next() {
            q.remove(&g);
            if off.contains(&g) { continue; }
            let n = runs.entry(g).or_insert(0); *n += 1; if *n > 8 { continue; }
            if let Some(o) = self.fire(g, s) {
                for (_, c, v) in o {
                    if pinned.contains(&c) || s[c] == Some(v) { continue; }
                    s[c] = Some(v); changed.insert(c);
                    for u in &self.users[c] { q.insert(*u); }
                }
            }
        }
        changed
    }
    fn row_ok(&self, s: &St<C::ScalarField>, i: usize) -> bool {
        let g = self.rows.len();
        let v = |k: usize| -> Vec<C::ScalarField> { self.rows[k].iter().map(|c| s[*c].unwrap_or(C::ScalarField::ZERO)).collect() };
        evaluate_all_constraints::<C, C::Inner>(&self.c.gate_constants[i], &v(i), &v((i + 1) % g), &v((i + GRID) % g)).iter().all(|x| x.is_zero())
    }
    pub fn violated(&self, s: &St<C::ScalarField>) -> Option<usize> { (0..self.rows.len()).find(|i| !self.row_ok(s, *i)) }
    /// State from scratch: inputs and overrides pinned, panicking generators leave their outputs to others (or zero).
    pub fn scratch(&self, pin: &Fault<C::ScalarField>) -> St<C::ScalarField> {
        let mut s = vec![None; self.n];
        let mut pinned = BTreeSet::new();
        for (c, v) in pin { s[*c] = Some(*v); pinned.insert(*c); }
        self.propagate(&mut s, &pinned, &BTreeSet::new(), (0..self.deps.len()).collect());
        s
    }
    /// Applies a fault of generator `owner` to a satisfied state. None if a constraint is then violated.
    pub fn fault(&self, s: &St<C::ScalarField>, owners: &[usize], f: &Fault<C::ScalarField>, inputs: &BTreeSet<usize>, freeze: bool) -> Option<St<C::ScalarField>> {
        let mut t = s.clone();
        let mut pinned = inputs.clone();
        let mut q = vec![];
        let mut ch = BTreeSet::new();
        for (c, v) in f { if inputs.contains(c) { return None; } t[*c] = Some(*v); pinned.insert(*c); ch.insert(*c); q.extend(self.users[*c].iter().cloned()); }
        // A gate whose own row rejects the value no matter what follows.
        for o in owners { if let Some((Target::Wire(w), _)) = self.outs[*o].first() { if self.outs[*o].iter().all(|(x, _)| matches!(x, Target::Wire(_))) && !self.deps[*o].is_empty() && !self.row_ok(&t, w.gate) { return None; } } }
        let mut off: BTreeSet<usize> = owners.iter().cloned().collect();
        if freeze { off.extend((0..self.outs.len()).filter(|g| self.is_hint(*g))); }
        // Other outputs of the switched-off generators may follow from gates: let their writers run.
        for o in owners { for (_, c) in &self.outs[*o] { if !pinned.contains(c) { for g in &self.writers[*c] { if g != o { q.push(*g); } } } } }
        if self.settle(&mut t, ch, &pinned, &off, q) { Some(t) } else { None }
    }
    /// Runs everything downstream of `queue` in dependency order (a cycle of generators: until nothing changes) and checks each
    /// affected row as soon as nothing still to run can change it. False if a row is violated.
    fn settle(&self, s: &mut St<C::ScalarField>, changed: BTreeSet<usize>, pinned: &BTreeSet<usize>, off: &BTreeSet<usize>, queue: Vec<usize>) -> bool {
        // Generators that may run, and how many of them may still write each class.
        let mut reach: Vec<usize> = vec![];
        let mut idx: HashMap<usize, usize> = HashMap::new();
        // What a gate computes in an honest run only that gate recomputes (unless it is off): others merely check it.
        let may = |g: usize, c: usize| -> bool { !pinned.contains(&c) && self.prim.get(c).cloned().flatten().map_or(true, |o| o == g || off.contains(&o)) };
        let mut stack = queue.clone();
        while let Some(g) = stack.pop() {
            if off.contains(&g) || idx.contains_key(&g) { continue; }
            idx.insert(g, reach.len()); reach.push(g);
            for (_, c) in &self.outs[g] { if may(g, *c) { stack.extend(self.users[*c].iter().cloned()); } }
        }
        let succ: Vec<Vec<usize>> = reach.iter().map(|&g| self.outs[g].iter().filter(|(_, c)| may(g, *c)).flat_map(|(_, c)| self.users[*c].iter().filter_map(|u| idx.get(u).cloned())).collect()).collect();
        let mut pend: HashMap<usize, u32> = HashMap::new();
        for g in &reach { for (_, c) in &self.outs[*g] { if may(*g, *c) { *pend.entry(*c).or_insert(0) += 1; } } }
        // Strongly connected components (Tarjan), emitted successors first.
        let n = reach.len();
        let (mut num, mut low, mut on) = (vec![0usize; n], vec![0usize; n], vec![false; n]);
        let (mut cnt, mut st, mut comps) = (0, vec![], vec![]);
        for r in 0..n {
            if num[r] != 0 { continue; }
            let mut work = vec![(r, 0usize)];
            while let Some((v, i)) = work.pop() {
                if i == 0 { cnt += 1; num[v] = cnt; low[v] = cnt; st.push(v); on[v] = true; }
                if i > 0 { let w = succ[v][i - 1]; if on[w] { low[v] = low[v].min(low[w]); } }
                if i < succ[v].len() { work.push((v, i + 1)); let w = succ[v][i]; if num[w] == 0 { work.push((w, 0)); } continue; }
                if low[v] == num[v] { let mut c = vec![]; loop { let w = st.pop().unwrap(); on[w] = false; c.push(w); if w == v { break; } } comps.push(c); }
            }
        }
        let mut dirty = changed;
        let mut done: BTreeSet<usize> = BTreeSet::new();
        let q0: BTreeSet<usize> = queue.into_iter().collect();
        let check = |s: &St<C::ScalarField>, cs: &mut dyn Iterator<Item = usize>, pend: &HashMap<usize, u32>, done: &mut BTreeSet<usize>| -> bool {
            let g = self.rows.len();
            for c in cs { for &i in &self.windows[c] {
                if done.contains(&i) || vec![i, (i + 1) % g, (i + GRID) % g].iter().any(|k| self.rows[*k].iter().any(|c| pend.get(c).map_or(false, |n| *n > 0))) { continue; }
                done.insert(i);
                if !self.row_ok(s, i) { return false; }
            } }
            true
        };
        if !check(s, &mut dirty.iter().cloned(), &pend, &mut done) { return false; }
        for comp in comps.into_iter().rev() {
            let inside: BTreeSet<usize> = comp.iter().map(|i| reach[*i]).collect();
            let mut q: BTreeSet<usize> = inside.iter().cloned().filter(|g| q0.contains(g) || self.deps[*g].iter().any(|(_, c)| dirty.contains(c))).collect();
            let mut runs: BTreeMap<usize, u32> = BTreeMap::new();
            while let Some(&g) = q.iter().next() {
                q.remove(&g);
                let n = runs.entry(g).or_insert(0); *n += 1; if *n > 8 { continue; }
                if let Some(o) = self.fire(g, s) { for (_, c, v) in o {
                    if !may(g, c) || s[c] == Some(v) { continue; }
                    s[c] = Some(v); dirty.insert(c);
                    for u in &self.users[c] { if inside.contains(u) { q.insert(*u); } }
                } }
            }
            let mut fin = vec![];
            for g in &inside { for (_, c) in &self.outs[*g] { if !may(*g, *c) { continue; } if let Some(p) = pend.get_mut(c) { *p -= 1; if *p == 0 { fin.push(*c); } } } }
            // A row becomes checkable when its last pending class does; only rows reading a changed class matter.
            let mut rows: BTreeSet<usize> = BTreeSet::new();
            for c in &fin { for i in &self.windows[*c] { rows.insert(*i); } }
            let g = self.rows.len();
            for i in rows {
                if done.contains(&i) { continue; }
                let ks = [i, (i + 1) % g, (i + GRID) % g];
                if ks.iter().any(|k| self.rows[*k].iter().any(|c| pend.get(c).map_or(false, |n| *n > 0))) { continue; }
                if !ks.iter().any(|k| self.rows[*k].iter().any(|c| dirty.contains(c))) { continue; }
                done.insert(i);
                if !self.row_ok(s, i) { return false; }
            }
        }
        let left: BTreeSet<usize> = dirty.iter().flat_map(|c| self.windows[*c].iter().cloned()).filter(|i| !done.contains(i)).collect();
        left.iter().all(|i| self.row_ok(s, *i))
    }
    pub fn reads(&self, g: usize) -> Vec<usize> { self.deps[g].iter().map(|x| x.1).collect() }
    pub fn is_hint(&self, g: usize) -> bool { self.outs[g].iter().any(|(t, _)| matches!(t, Target::VirtualTarget(_))) }

    /// Alternatives for one generated value.
    fn alts(&self, v: C::ScalarField, extra: &[C::ScalarField]) -> Vec<C::ScalarField> {
        let one = <C::ScalarField as Field>::ONE;
        let mut o: Vec<C::ScalarField> = vec![];
        for a in vec![v + one, v - one, C::ScalarField::ZERO, one, -v, v + v, -one, C::ScalarField::of(&b(2)), C::ScalarField::of(&b(3)), C::ScalarField::of(&b(4))].into_iter().chain(extra.iter().cloned()) { if a != v && !o.contains(&a) { o.push(a); } }
        o
    }
    /// Every fault in the menu; `seen` is called with each state that satisfies all constraints. Returns how many were tried.
    /// radix: bases in which digit lists may be re-balanced.
    pub fn explore(&self, s: &St<C::ScalarField>, inputs: &BTreeSet<usize>, extra: &[C::ScalarField], radix: &[B], pairs: bool, seen: &mut dyn FnMut(&St<C::ScalarField>, &dyn Fn() -> String) -> R) -> Result<u64, String> {
        let mut n = 0;
        let p = C::ScalarField::order();
        let many = (0..self.outs.len()).filter(|g| self.is_hint(*g) && !self.deps[*g].is_empty()).count() > 1;
        let mut go = |owners: &[usize], f: Fault<C::ScalarField>| -> R {
            // A result is replaced under the same operands: other operands are a fault of whoever generates those.
            let mut held = inputs.clone();
            for o in owners { held.extend(self.reads(*o).into_iter().filter(|c| !f.iter().any(|(d, _)| c == d))); }
            let inputs = &held;
            // Downstream hints either follow the new value or keep their honest ones.
            for &freeze in if many && f.len() != 0 && self.outs[owners[0]].len() <= 6 { &[false, true][..] } else { &[false][..] } {
            n += 1;
            if let Some(t) = self.fault(s, owners, &f, inputs, freeze) { seen(&t, &|| format!("generated value(s) replaced: {}", f.iter().map(|(c, v)| format!("class {} := {} (honest {})", c, v.val().to_str_radix(16), s[*c].unwrap_or(C::ScalarField::ZERO).val().to_str_radix(16))).collect::<Vec<_>>().join(", ")))?; }
            }
            Ok(())
        };
        let val = |c: usize| s[c].unwrap_or(C::ScalarField::ZERO);
        let hints: Vec<usize> = (0..self.outs.len()).filter(|g| self.is_hint(*g) && !self.deps[*g].is_empty()).collect();
        for g in 0..self.outs.len() {
            let outs: Vec<usize> = self.outs[g].iter().map(|(_, c)| *c).filter(|c| !inputs.contains(c)).collect();
            if outs.is_empty() || self.deps[g].is_empty() { continue; }
            if !self.is_hint(g) { let one = <C::ScalarField as Field>::ONE; for c in &outs { go(&[g], vec![(*c, val(*c) + one)])?; if !val(*c).is_zero() { go(&[g], vec![(*c, C::ScalarField::ZERO)])?; } } continue; }
            let one = <C::ScalarField as Field>::ONE;
            for c in &outs { let v = val(*c); let al = if outs.len() > 6 { vec![v + one, v - one] } else { self.alts(v, extra) }; for v in al { go(&[g], vec![(*c, v)])?; } }
            if outs.len() <= 3 { for i in 0..outs.len() { for j in 0..i { for v in self.alts(val(outs[i]), extra) { for w in self.alts(val(outs[j]), extra) { go(&[g], vec![(outs[i], v), (outs[j], w)])?; } } } } }
            else {
                for r in radix { if (self.deps[g].len() == 1) != (r < &b(16)) { continue; } let rf = C::ScalarField::of(r); let one = <C::ScalarField as Field>::ONE; for i in 0..outs.len() - 1 { for (d, e) in vec![(one, rf), (-one, -rf)] {
                    go(&[g], vec![(outs[i + 1], val(outs[i + 1]) - d), (outs[i], val(outs[i]) + e)])?;
                } } }
            }
            // Digit lists of one value: everything in one digit, and the digits of value + order.
            if self.deps[g].len() == 1 && outs.len() > 1 {
                let x = val(self.deps[g][0].1).val();
                let mut f: Fault<C::ScalarField> = outs.iter().map(|c| (*c, C::ScalarField::ZERO)).collect(); f[0].1 = C::ScalarField::of(&x); go(&[g], f)?;
                for r in radix { for y in vec![&x + &p, &x + b(1), x.clone()] { let mut y = y; let f: Fault<C::ScalarField> = outs.iter().map(|c| { let d = &y % r; y = &y / r; (*c, C::ScalarField::of(&d)) }).collect(); go(&[g], f)?; } }
            }
        }
        if pairs { for (i, g) in hints.iter().enumerate() { for h in &hints[..i] {
            if self.outs[*g].len() > 3 || self.outs[*h].len() > 3 { continue; }
            for (_, c) in &self.outs[*g] { for (_, d) in &self.outs[*h] { if c == d || inputs.contains(c) || inputs.contains(d) { continue; } for v in self.alts(val(*c), extra) { for w in self.alts(val(*d), extra) { go(&[*g, *h], vec![(*c, v), (*d, w)])?; } } } }
        } } }
        Ok(n)
    }
    /// As `explore`, for values that generators set without reading anything (constants): one or two of them replaced.
    pub fn explore_constants(&self, s: &St<C::ScalarField>, inputs: &BTreeSet<usize>, seen: &mut dyn FnMut(&St<C::ScalarField>, &dyn Fn() -> String) -> R) -> Result<u64, String> {
        let one = <C::ScalarField as Field>::ONE;
        let mut consts: Vec<(usize, usize)> = vec![];
        for g in 0..self.outs.len() { if self.deps[g].is_empty() { for (_, c) in &self.outs[g] { if !inputs.contains(c) && !consts.iter().any(|x| x.1 == *c) { consts.push((g, *c)); } } } }
        let alts = |c: usize| -> Vec<C::ScalarField> { let v = s[c].unwrap_or(C::ScalarField::ZERO); let mut o = vec![]; for a in vec![C::ScalarField::ZERO, one, -one, C::ScalarField::of(&b(2)), one / C::ScalarField::of(&b(2)), -(one / C::ScalarField::of(&b(2))), v + one] { if a != v && !o.contains(&a) { o.push(a); } } o };
        let mut n = 0;
        let mut go = |owners: Vec<usize>, f: Fault<C::ScalarField>| -> R {
            n += 1;
            if let Some(t) = self.fault(s, &owners, &f, inputs, false) { seen(&t, &|| format!("constants replaced: {}", f.iter().map(|(c, v)| format!("class {} := {} (honest {})", c, v.val().to_str_radix(16), s[*c].unwrap_or(C::ScalarField::ZERO).val().to_str_radix(16))).collect::<Vec<_>>().join(", ")))?; }
            Ok(())
        };
        for (i, (g, c)) in consts.iter().enumerate() {
            for v in alts(*c) {
                go(vec![*g], vec![(*c, v)])?;
                for (h, d) in &consts[..i] { for w in alts(*d) { go(if g == h { vec![*g] } else { vec![*g, *h] }, vec![(*c, v), (*d, w)])?; } }
            }
        }
        Ok(n)
    }
}
