//! C16: witness generation as a transition system. States are sets of completed generators; every order in which ready
//! generators can run is explored, on the implementation (through its scheduling hook) and on a model of its worklist.
use mc::alpha::*;
use mc::circ::*;
use mc::gad::G::*;
use mc::gad::*;
use mc::*;
use plonky::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type S<C> = <C as Curve>::ScalarField;
type T<C> = Target<S<C>>;
fn f1<F: Field>() -> F { <F as Field>::ONE }

/// A generator that notes whether its declared dependencies were there.
struct Probe<F: Field> { idx: usize, deps: Vec<Target<F>>, out: Target<F>, twist: F, log: Arc<Mutex<Vec<(usize, bool)>>> }
fn weigh<F: Fx>(i: usize, deps: &[F]) -> F { deps.iter().enumerate().fold(generic::<F>(100 + i as u64), |a, (j, d)| a + *d * F::from_canonical_u64(j as u64 + 2)) }
impl<F: Fx> WitnessGenerator<F> for Probe<F> {
    fn dependencies(&self) -> Vec<Target<F>> { self.deps.clone() }
    fn generate(&self, _: &[Vec<F>], w: &PartialWitness<F>) -> PartialWitness<F> {
        let ok = self.deps.iter().all(|t| w.contains_target(*t));
        self.log.lock().unwrap().push((self.idx, ok));
        let mut r = PartialWitness::new();
        if ok { r.set_target(self.out, weigh(self.idx, &self.deps.iter().map(|t| w.get_target(*t)).collect::<Vec<_>>()) + self.twist); }
        r
    }
}

const KINDS: usize = 8;
/// Places for the values of up to four generated values (and two inputs): for each a place to write, one to read and all aliases.
struct Base<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { c: Circuit<C>, own: usize, slots: Vec<Vec<(T<C>, T<C>, Vec<T<C>>)>> }
fn base<C: Hx>(nodes: usize) -> Base<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut b = CircuitBuilder::<C>::new(128);
    let mut slots = vec![];
    let wire = |g, j| Target::Wire(Wire { gate: g, input: j });
    for i in 0..nodes {
        // Some public inputs lie on wires that cannot be routed, and some on a second row.
        let p = b.add_public_inputs(4);
        let g = b.num_gates();
        b.add_gate_no_constants(BufferGate::new(g));
        b.add_gate_no_constants(BufferGate::new(g + 1));
        let v = b.add_virtual_targets(8);
        b.copy(v[1], wire(g, 1)); b.copy(v[2], wire(g, 2)); b.copy(p[1], v[4]); b.copy(v[6], p[2]);
        b.copy(v[7], wire(g, 3)); b.copy(wire(g + 1, 3), wire(g, 3)); b.copy(p[3], wire(g + 1, 3));
        let _ = i;
        slots.push(vec![
            (v[0], v[0], vec![v[0]]),
            (v[1], wire(g, 1), vec![v[1], wire(g, 1)]),
            (wire(g, 2), v[2], vec![v[2], wire(g, 2)]),
            (p[0], p[0], vec![p[0]]),
            (p[1], v[4], vec![p[1], v[4]]),
            (wire(g, 7), wire(g, 7), vec![wire(g, 7)]),
            (v[6], p[2], vec![v[6], p[2]]),
            (v[7], p[3], vec![v[7], p[3], wire(g, 3), wire(g + 1, 3)]),
        ]);
    }
    let c = b.build();
    let own = c.generators.len();
    Base { c, own, slots }
}
/// Stateless exploration: `run` is executed once per schedule; `choices` picks a permutation of the probes in each round.
fn schedules(own: usize, mut run: impl FnMut() -> R) -> Result<u64, String> {
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    loop {
        let seen: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(vec![])); // Number of alternatives at each choice.
        let (s2, pre) = (seen.clone(), prefix.clone());
        verif_hooks::set_generator_scheduler(Some(Box::new(move |ready| {
            let (other, mine): (Vec<usize>, Vec<usize>) = ready.into_iter().partition(|g| *g < own);
            let total: usize = (1..=mine.len()).product();
            let k = if total < 2 { 0 } else { let d = s2.borrow().len(); s2.borrow_mut().push(total); pre.get(d).cloned().unwrap_or(0) };
            let mut m = mine; let mut o = vec![]; let mut k = k;
            while !m.is_empty() { let l = m.len(); o.push(m.remove(k % l)); k /= l; }
            // The others (gates of the circuit) alternately before and after.
            if n_is_odd(k + o.len()) { o.extend(other); o } else { other.into_iter().chain(o).collect() }
        })));
        let r = run();
        verif_hooks::set_generator_scheduler(None);
        r?;
        n += 1;
        let seen = seen.borrow().clone();
        let mut c: Vec<usize> = (0..seen.len()).map(|i| prefix.get(i).cloned().unwrap_or(0)).collect();
        loop { match c.pop() { None => return Ok(n), Some(x) => if x + 1 < seen[c.len()] { c.push(x + 1); break; } } }
        prefix = c;
    }
}
fn n_is_odd(n: usize) -> bool { n % 2 == 1 }

/// All dependency graphs with `nodes` generators over two inputs, all subsets of inputs given, all schedules.
fn graphs<C: Hx>(ctx: &'static Ctx, nodes: usize, rotations: usize, all_inputs: bool) where C::BaseField: Fx, C::ScalarField: Fx {
    let total: usize = (0..nodes).map(|i| 1usize << (2 + i)).product();
    let blocks = 64.min(total);
    ctx.par((0..blocks).collect(), move |&blk| { ctx.bulk("dependency graphs", &format!("{} {} generators, block {}", C::CNAME, nodes, blk), || {
        let mut q = base::<C>(nodes + 2);
        let log = Arc::new(Mutex::new(vec![]));
        let (mut cnt, mut st, mut tr) = (0, 0, 0);
        for d in (0..total).filter(|d| d % blocks == blk) {
            let mut k = d;
            let deps: Vec<Vec<usize>> = (0..nodes).map(|i| { let n = 1 << (2 + i); let m = k % n; k /= n; (0..2 + i).filter(|j| m >> j & 1 == 1).collect() }).collect();
            for rot in 0..rotations {
                let kind = |i: usize| (i * 3 + rot + d) % KINDS;
                q.c.generators.truncate(q.own);
                for i in 0..nodes {
                    let ds = deps[i].iter().map(|j| q.slots[*j][kind(*j)].1).collect();
                    q.c.generators.push(Box::new(Probe { idx: i, deps: ds, out: q.slots[2 + i][kind(2 + i)].0, twist: S::<C>::ZERO, log: log.clone() }));
                }
                for given in if all_inputs { 0..4usize } else { 3..4 } {
                    let mut val: Vec<Option<S<C>>> = (0..2).map(|j| if given >> j & 1 == 1 { Some(generic::<S<C>>(j as u64)) } else { None }).collect();
                    for i in 0..nodes { let v: Option<Vec<S<C>>> = deps[i].iter().map(|j| val[*j]).collect(); val.push(v.map(|v| weigh(i, &v))); }
                    let want: BTreeSet<usize> = (0..nodes).filter(|i| val[2 + i].is_some()).collect();
                    let mut orders: HashSet<Vec<usize>> = HashSet::new();
                    let what = || format!("dependencies {:?} (0 and 1 are inputs), inputs given {:#b}, kinds {:?}", deps, given, (0..nodes + 2).map(kind).collect::<Vec<_>>());
                    let n = schedules(q.own, || {
                        log.lock().unwrap().clear();
                        let mut w = PartialWitness::new();
                        for j in 0..2 { if let Some(v) = val[j] { w.set_target(q.slots[j][kind(j)].0, v); } }
                        let w = catch(|| q.c.generate_partial_witness(w)).map_err(|e| format!("{}: panic: {}", what(), e))?;
                        let l = log.lock().unwrap().clone();
                        ensure!(l.iter().all(|x| x.1), "{}: a generator ran before its declared inputs were there: {:?}", what(), l);
                        let o: Vec<usize> = l.iter().map(|x| x.0).collect();
                        let mut s = o.clone(); s.sort();
                        ensure!(s == want.iter().cloned().collect::<Vec<_>>(), "{}: generators run {:?}, determined {:?}", what(), o, want);
                        orders.insert(o);
                        for j in 0..nodes + 2 { for t in &q.slots[j][kind(j)].2 {
                            match val[j] {
                                Some(v) => { ensure!(w.contains_target(*t), "{}: {:?} of value {} has no value", what(), t, j); ensure!(w.get_target(*t) == v, "{}: {:?} of value {} has another value", what(), t, j); }
                                None => ensure!(!w.contains_target(*t), "{}: {:?} of undetermined value {} has a value", what(), t, j),
                            }
                        } }
                        Ok(())
                    })?;
                    // The completed sets the schedules pass through.
                    let mut states: HashSet<BTreeSet<usize>> = HashSet::new();
                    for o in &orders { let mut s = BTreeSet::new(); states.insert(s.clone()); for g in o { s.insert(*g); states.insert(s.clone()); tr += 1; } }
                    st += states.len() as u64; cnt += n;
                }
            }
        }
        ctx.states(st); ctx.transitions(tr); ctx.traces(cnt);
        Ok(cnt)
    }); });
}
/// Two generators for one value, through any two aliases: the same value is fine, another is refused in every order.
fn two_writers<C: Hx>(ctx: &'static Ctx) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par((0..KINDS).collect(), move |&kind| { ctx.bulk("two sources of a value", &format!("{} kind {}", C::CNAME, kind), || {
        let mut q = base::<C>(3);
        let log = Arc::new(Mutex::new(vec![]));
        let mut cnt = 0;
        let al = q.slots[2][kind].2.clone();
        for a in &al { for e in &al { for dep in 0..3 { for wrong in vec![false, true] {
            // Same round, or one of them a round later; or the first source is an input.
            let own = q.own;
            q.c.generators.truncate(own);
            let tw = if wrong { f1::<S<C>>() } else { S::<C>::ZERO };
            let r0 = q.slots[0][0].1;
            let v = weigh(0, &[generic::<S<C>>(0)]);
            if dep < 2 { q.c.generators.push(Box::new(Probe { idx: 0, deps: vec![r0], out: *a, twist: S::<C>::ZERO, log: log.clone() })); }
            let mid = q.slots[1][kind].1;
            if dep == 1 { q.c.generators.push(Box::new(Probe { idx: 5, deps: vec![r0], out: q.slots[1][kind].0, twist: S::<C>::ZERO, log: log.clone() })); }
            let second: Vec<T<C>> = if dep == 1 { vec![mid] } else { vec![r0] };
            let at = if dep == 1 { weigh(0, &[weigh(5, &[generic::<S<C>>(0)])]) } else { v };
            q.c.generators.push(Box::new(Probe { idx: 0, deps: second, out: *e, twist: v - at + tw, log: log.clone() }));
            cnt += schedules(own, || {
                let mut w = PartialWitness::new();
                w.set_target(q.slots[0][0].0, generic::<S<C>>(0));
                let r = catch(|| { if dep == 2 { w.set_target(*a, v); } q.c.generate_partial_witness(w) });
                match (wrong, r) {
                    (false, Err(p)) => Err(format!("{:?} and {:?} given the same value: refused: {}", a, e, p)),
                    (true, Ok(_)) => Err(format!("{:?} and {:?} given different values: not refused (case {})", a, e, dep)),
                    (false, Ok(w)) => { for t in &al { ensure!(w.contains_target(*t) && w.get_target(*t) == v, "{:?} has no or another value", t); } Ok(()) }
                    _ => Ok(()),
                }
            })?;
        } } } }
        Ok(cnt)
    }); });
}

/// Model of a circuit's generators over copy classes.
struct Mdl<C: Hx> where C::BaseField: Fx, C::ScalarField: Fx { q: Built<C>, class: HashMap<T<C>, usize>, members: Vec<Vec<T<C>>>, deps: Vec<Vec<T<C>>>, random: BTreeSet<usize>, rnd: BTreeSet<usize> }
type Out<F> = Vec<(Target<F>, F)>;
impl<C: Hx> Mdl<C> where C::BaseField: Fx, C::ScalarField: Fx {
    fn new(q: Built<C>) -> Self {
        let mut m = Mdl { class: HashMap::new(), members: vec![], deps: q.c.generators.iter().map(|g| g.dependencies()).collect(), random: BTreeSet::new(), rnd: BTreeSet::new(), q };
        let (n, off) = (m.q.c.num_public_inputs, m.q.c.num_gates_without_pis);
        // Public inputs: first wires of the pairs of rows at the end; wires that cannot be routed are repeated one row below.
        for i in 0..n {
            let (g, j) = (off + 2 * (i / WIRES), i % WIRES);
            let mut l = vec![Target::PublicInput(PublicInput::new(i)), Target::Wire(Wire { gate: g, input: j })];
            let r = if j < ROUTED { l[1] } else { Target::Wire(Wire { gate: g + 1, input: j - ROUTED }) };
            if j >= ROUTED { l.push(r); }
            for t in m.q.c.routing_target_partitions.get_partition(r) { if !l.contains(t) { l.push(*t); } }
            let mut all = l.clone();
            for t in &l { if let Some(c) = m.class.get(t) { for u in &m.members[*c] { if !all.contains(u) { all.push(*u); } } m.members[*c].clear(); } }
            for t in &all { m.class.insert(*t, m.members.len()); }
            m.members.push(all);
        }
        for g in 0..m.q.c.degree() { for j in 0..WIRES { m.cls(Target::Wire(Wire { gate: g, input: j })); } }
        for g in 0..m.deps.len() { for t in m.deps[g].clone() { m.cls(t); } if m.deps[g].is_empty() {
            let f = |m: &Self| -> Out<S<C>> { let r = m.q.c.generators[g].generate(&m.q.c.gate_constants, &PartialWitness::new()); r.all_populated_targets().into_iter().map(|t| (t, r.get_target(t))).collect::<BTreeMapLike<_>>().sorted() };
            let (a, b) = (f(&m), f(&m));
            for (t, _) in &a { m.cls(*t); }
            if a != b { m.random.insert(g); for (t, _) in a { let c = m.cls(t); m.rnd.insert(c); } }
        } }
        for (t, _) in m.q.inp.clone().iter().chain(&m.q.pis.clone()) { m.cls(*t); }
        m
    }
    fn cls(&mut self, t: T<C>) -> usize {
        if let Some(c) = self.class.get(&t) { return *c; }
        let l = self.q.c.routing_target_partitions.get_partition(t).to_vec();
        for x in &l { self.class.insert(*x, self.members.len()); }
        self.members.push(l);
        self.members.len() - 1
    }
    fn witness(&self, s: &BTreeMap<usize, S<C>>, only: Option<&[T<C>]>) -> PartialWitness<S<C>> {
        let mut w = PartialWitness::new();
        match only {
            Some(l) => for t in l { if !w.contains_target(*t) { w.set_target(*t, s[&self.class[t]]); } },
            None => for (c, v) in s { for t in &self.members[*c] { w.set_target(*t, *v); } },
        }
        w
    }
    fn fire(&self, g: usize, w: &PartialWitness<S<C>>) -> Result<Out<S<C>>, String> {
        let r = catch(|| self.q.c.generators[g].generate(&self.q.c.gate_constants, w)).map_err(|e| format!("generator {} with dependencies {:?}: panic: {}", g, self.deps[g], e))?;
        Ok(r.all_populated_targets().into_iter().map(|t| (t, r.get_target(t))).collect::<BTreeMapLike<_>>().sorted())
    }
    fn ready(&self, g: usize, s: &BTreeMap<usize, S<C>>) -> bool { self.deps[g].iter().all(|t| s.contains_key(&self.class[t])) }
    /// Fixed point with each generator given nothing but its declared dependencies; the outputs of each.
    fn closure(&mut self, given: &[(T<C>, S<C>)]) -> Result<(BTreeMap<usize, S<C>>, Vec<Option<Out<S<C>>>>), String> {
        let mut s = BTreeMap::new();
        for (t, v) in given { s.insert(self.class[t], *v); }
        let n = self.deps.len();
        let mut outs: Vec<Option<Out<S<C>>>> = vec![None; n];
        loop {
            let mut any = false;
            for g in 0..n {
                if outs[g].is_some() || self.random.contains(&g) || !self.ready(g, &s) { continue; }
                any = true;
                let o = self.fire(g, &self.witness(&s, Some(&self.deps[g]))).map_err(|e| format!("given its declared inputs only: {}", e))?;
                for (t, v) in &o {
                    let c = self.cls(*t);
                    ensure!(*s.entry(c).or_insert(*v) == *v, "generator {} sets {:?} to a value other than the one it has", g, t);
                }
                outs[g] = Some(o);
            }
            if !any { return Ok((s, outs)); }
        }
    }
    fn given(&self) -> Vec<(T<C>, S<C>)> { self.q.inp.iter().chain(&self.q.pis).cloned().collect() }
    fn real(&self, given: &[(T<C>, S<C>)]) -> Result<PartialWitness<S<C>>, String> {
        let mut w = PartialWitness::new();
        for (t, v) in given { w.set_target(*t, *v); }
        catch(|| self.q.c.generate_partial_witness(w))
    }
    /// The implementation's result is the fixed point, on every member of every class.
    fn same(&self, w: &PartialWitness<S<C>>, s: &BTreeMap<usize, S<C>>) -> R {
        for (c, l) in self.members.iter().enumerate() { if self.rnd.contains(&c) { continue; } for t in l {
            match s.get(&c) {
                Some(v) => { ensure!(w.contains_target(*t), "{:?} has no value", t); ensure!(w.get_target(*t) == *v, "{:?} has another value", t); }
                None => ensure!(!w.contains_target(*t), "{:?} has a value, though nothing determines it", t),
            }
        } }
        for t in w.all_populated_targets() { ensure!(self.class.contains_key(&t), "{:?} was populated, though no class or generator has it", t); }
        Ok(())
    }
}
/// Pairs sorted by the target's name, so that results can be compared.
struct BTreeMapLike<T>(Vec<T>);
impl<T> std::iter::FromIterator<T> for BTreeMapLike<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { BTreeMapLike(i.into_iter().collect()) } }
impl<F: Field> BTreeMapLike<(Target<F>, F)> { fn sorted(mut self) -> Out<F> { self.0.sort_by_key(|(t, _)| match t { Target::VirtualTarget(v) => (0, v.index, 0), Target::Wire(w) => (1, w.gate, w.input), Target::PublicInput(p) => (2, p.index, 0), _ => (3, 0, 0) }); self.0 } }

fn mixed<C: Hx>(gs: &[G], pis: usize) -> Built<C> where C::BaseField: Fx, C::ScalarField: Fx {
    let mut c = Case::<C>::new(pis, &|i| generic::<S<C>>(500 + i as u64));
    for g in gs { c.gadget(*g); }
    c.finish()
}
/// Confluence: in every reachable state (up to a cap, then in the extreme ones) each ready generator gives what it gives
/// from its declared dependencies alone. Then the implementation under many schedules, subsets of inputs and conflicts.
fn circuit<C: Hx>(ctx: &'static Ctx, gs: Vec<G>, pis: usize, cap: usize) where C::BaseField: Fx, C::ScalarField: Fx {
    let nm = format!("{} {:?} {} public inputs", C::CNAME, gs, pis);
    let mk = || mixed::<C>(&gs, pis);
    ctx.bulk("reachable states", &nm, || {
        let mut m = Mdl::new(mk());
        let given = m.given();
        let (s, outs) = m.closure(&given)?;
        // Complete and satisfying.
        for g in 0..outs.len() { ensure!(outs[g].is_some() || m.random.contains(&g) || m.deps[g].iter().any(|t| m.rnd.contains(&m.class[t]) || !s.contains_key(&m.class[t])), "generator {} never became ready", g); }
        let full = m.witness(&s, None);
        satisfied::<C, C::Inner>(&m.q.c, &wit(&Witness::from_partial(&full, m.q.c.degree()), m.q.c.degree())).map_err(|e| format!("fixed point: {}", e))?;
        let live: Vec<usize> = (0..outs.len()).filter(|g| outs[*g].is_some()).collect();
        let mut cnt = 0;
        let (mm, oo, ss) = (&m, &outs, &s);
        // What a generator gives in a richer context includes what it gives from its declared inputs; the rest is what others give anyway.
        let agrees = |g: usize, w: &PartialWitness<S<C>>, when: &dyn Fn() -> String| -> R {
            let o = mm.fire(g, w)?;
            for x in oo[g].as_ref().unwrap() { ensure!(o.contains(x), "generator {} gives another value for {:?} {} than from its declared inputs", g, x.0, when()); }
            for (t, v) in &o { ensure!(mm.class.get(t).and_then(|c| ss.get(c)) == Some(v), "generator {} gives {:?} a value {} that it does not get otherwise", g, t, when()); }
            Ok(())
        };
        for g in &live { agrees(*g, &full, &|| "when everything is known".into())?; cnt += 1; }
        // Generators without dependencies run at once: they are part of the first state. Breadth first over completed sets.
        let work: Vec<usize> = live.iter().cloned().filter(|g| !m.deps[*g].is_empty()).collect();
        let mut s0 = BTreeMap::new();
        for (t, v) in &given { s0.insert(m.class[t], *v); }
        for g in &live { if m.deps[*g].is_empty() { for (t, v) in outs[*g].as_ref().unwrap() { s0.insert(m.class[t], *v); } } }
        let mut seen: HashSet<Vec<bool>> = HashSet::new();
        let mut q = std::collections::VecDeque::new();
        let z = vec![false; work.len()];
        seen.insert(z.clone()); q.push_back(z);
        let (mut st, mut tr) = (0u64, 0u64);
        let mut cut = false;
        while let Some(done) = q.pop_front() {
            st += 1;
            let mut s = s0.clone();
            for (i, g) in work.iter().enumerate() { if done[i] { for (t, v) in outs[*g].as_ref().unwrap() { s.insert(m.class[t], *v); } } }
            let w = m.witness(&s, None);
            for (i, g) in work.iter().enumerate() { if !done[i] && m.ready(*g, &s) {
                agrees(*g, &w, &|| format!("after {:?}", done.iter().zip(&work).filter(|x| *x.0).map(|x| x.1).collect::<Vec<_>>()))?;
                tr += 1;
                let mut d = done.clone(); d[i] = true;
                if seen.len() < cap { if seen.insert(d.clone()) { q.push_back(d); } } else if !seen.contains(&d) { cut = true; }
            } }
        }
        if cut { ctx.note(format!("{}: first {} states of the state graph breadth first ({} generators); in the others each generator is covered by the extreme contexts (declared inputs only, everything known)", nm, cap, work.len())); }
        ctx.states(st); ctx.transitions(tr);
        Ok(cnt + tr)
    });
    // Orders of ready generators in each round of the implementation.
    ctx.bulk("schedules", &nm, || {
        let mut m = Mdl::new(mk());
        let given = m.given();
        let (s, _) = m.closure(&given)?;
        let n = m.deps.len();
        let mut cnt = 0u64;
        let mut orders: Vec<(String, Box<dyn Fn(Vec<usize>) -> Vec<usize>>)> = vec![("ascending".into(), Box::new(|v| v)), ("descending".into(), Box::new(|mut v: Vec<usize>| { v.reverse(); v })),
            ("even first".into(), Box::new(|v: Vec<usize>| { let (a, b): (Vec<usize>, Vec<usize>) = v.into_iter().partition(|g| g % 2 == 0); a.into_iter().chain(b).collect() })),
            ("inside out".into(), Box::new(|mut v: Vec<usize>| { let h = v.len() / 2; v.rotate_left(h); v }))];
        let step = (n / if ctx.thorough { 200 } else { 24 }).max(1);
        for g in (0..n).step_by(step) {
            if m.random.contains(&g) { continue; }
            orders.push((format!("generator {} first", g), Box::new(move |v: Vec<usize>| { let (a, b): (Vec<usize>, Vec<usize>) = v.into_iter().partition(|x| *x == g); a.into_iter().chain(b).collect() })));
            orders.push((format!("generator {} last", g), Box::new(move |v: Vec<usize>| { let (a, b): (Vec<usize>, Vec<usize>) = v.into_iter().partition(|x| *x != g); a.into_iter().chain(b).collect() })));
        }
        for (name, o) in orders {
            verif_hooks::set_generator_scheduler(Some(Box::new(move |v| o(v))));
            let r = m.real(&given);
            verif_hooks::set_generator_scheduler(None);
            m.same(&r.map_err(|e| format!("{}: panic: {}", name, e))?, &s).map_err(|e| format!("{}: {}", name, e))?; cnt += 1;
        }
        for _ in 0..2 { m.same(&m.real(&given)?, &s).map_err(|e| format!("unscheduled: {}", e))?; cnt += 1; }
        ctx.traces(cnt);
        Ok(cnt)
    });
    // Inputs left out: what they alone determine is missing, nothing else.
    ctx.bulk("inputs left out", &nm, || {
        let mut m = Mdl::new(mk());
        let given = m.given();
        let k = given.len();
        let subs: Vec<Vec<bool>> = if k <= 5 { (0..1u32 << k).map(|x| (0..k).map(|i| x >> i & 1 == 1).collect()).collect() } else { (0..k).map(|i| (0..k).map(|j| i != j).collect()).chain((0..k).map(|i| (0..k).map(|j| i == j).collect())).chain(vec![vec![false; k]]).collect() };
        let mut cnt = 0;
        for sub in subs {
            let l: Vec<_> = given.iter().zip(&sub).filter(|x| *x.1).map(|x| *x.0).collect();
            let (s, _) = m.closure(&l).map_err(|e| format!("given {:?}: {}", sub, e))?;
            m.same(&m.real(&l).map_err(|e| format!("given {:?}: panic: {}", sub, e))?, &s).map_err(|e| format!("given {:?}: {}", sub, e))?; cnt += 1;
        }
        ctx.traces(cnt);
        Ok(cnt)
    });
    // A value given in addition: accepted if it is the right one, refused otherwise.
    ctx.bulk("conflicting inputs", &nm, || {
        let mut m = Mdl::new(mk());
        let given = m.given();
        let (s, _) = m.closure(&given)?;
        let mut cnt = 0;
        let mut t: Vec<T<C>> = s.keys().flat_map(|c| m.members[*c].clone()).collect();
        t.sort_by_key(|t| match t { Target::VirtualTarget(v) => (0, v.index, 0), Target::Wire(w) => (1, w.gate, w.input), Target::PublicInput(p) => (2, p.index, 0), _ => (3, 0, 0) });
        let step = (t.len() / ctx.tier(150, 3000)).max(1);
        for t in t.into_iter().step_by(step) {
            let v = s[&m.class[&t]];
            let extra = |v: S<C>| { let mut g: Vec<_> = given.iter().cloned().filter(|x| x.0 != t).collect(); g.push((t, v)); g };
            // Where the target itself is the given one it is not an addition.
            let is_input = given.iter().any(|x| x.0 == t);
            m.same(&m.real(&extra(v)).map_err(|e| format!("{:?} given its own value: {}", t, e))?, &s).map_err(|e| format!("{:?} given its own value: {}", t, e))?; cnt += 1;
            if is_input { continue; }
            ensure!(m.real(&extra(v + f1())).is_err(), "{:?} given a value other than the one it gets: not refused", t); cnt += 1;
        }
        ctx.traces(cnt);
        Ok(cnt)
    });
}
/// Public inputs given in each possible way, and read by generators.
fn public_inputs<C: Hx>(ctx: &'static Ctx, ns: Vec<usize>) where C::BaseField: Fx, C::ScalarField: Fx {
    ctx.par(ns, move |&n| { ctx.bulk("ways to give public inputs", &format!("{} {} public inputs", C::CNAME, n), || {
        let val = |i: usize| generic::<S<C>>(i as u64);
        let mut b = CircuitBuilder::<C>::new(128);
        let p = b.add_public_inputs(n);
        let v = b.add_virtual_targets(2 * n);
        for i in 0..n { b.copy(v[i], p[i]); if i % 2 == 0 { b.copy(p[i], v[n + i]); } }
        let c = b.build();
        let off = c.num_gates_without_pis;
        let wire = |i: usize| Target::Wire(Wire { gate: off + 2 * (i / WIRES), input: i % WIRES });
        let ways: Vec<Box<dyn Fn(usize) -> Vec<T<C>>>> = vec![Box::new(|i| vec![p[i]]), Box::new(|i| vec![v[i]]), Box::new(|i| vec![if i % 2 == 0 { v[n + i] } else { v[i] }]), Box::new(|i| vec![wire(i)]), Box::new(|i| vec![p[i], v[i], wire(i)]), Box::new(|i| vec![if i % 3 == 0 { p[i] } else if i % 3 == 1 { v[i] } else { wire(i) }])];
        let mut cnt = 0;
        let log = Arc::new(Mutex::new(vec![]));
        for (k, f) in ways.iter().enumerate() {
            let mut w = PartialWitness::new();
            for i in 0..n { for t in f(i) { w.set_target(t, val(i)); } }
            let w = c.generate_partial_witness(w);
            for i in 0..n { for t in vec![p[i], v[i], wire(i)] { ensure!(w.contains_target(t) && w.get_target(t) == val(i), "way {}: {:?} of public input {} has no or another value", k, t, i); } }
            let f = Witness::from_partial(&w, c.degree());
            satisfied::<C, C::Inner>(&c, &wit(&f, c.degree())).map_err(|e| format!("way {}: {}", k, e))?;
            ensure!(c.get_public_inputs(&f) == (0..n).map(val).collect::<Vec<_>>(), "way {}: public inputs out of order", k);
            cnt += 1;
            // Conflicts between two of the ways.
            for i in 0..n { for (a, t) in vec![p[i], v[i], wire(i)].into_iter().enumerate() { for (e, u) in vec![p[i], v[i], wire(i)].into_iter().enumerate() { if a != e {
                if k > 0 { continue; }
                let r = catch(|| { let mut w = PartialWitness::new(); w.set_target(t, val(i)); w.set_target(u, val(i) + f1()); c.generate_partial_witness(w) });
                ensure!(r.is_err(), "public input {}: {:?} and {:?} given different values: not refused", i, t, u); cnt += 1;
            } } } }
        }
        // One generator per public input computing the next one, starting from the first or the last.
        let mut c = c;
        let own = c.generators.len();
        if n > 1 { for back in vec![false, true] {
            let at = |i: usize| if back { n - 1 - i } else { i };
            for i in 1..n { c.generators.push(Box::new(Probe { idx: i, deps: vec![p[at(i - 1)]], out: if i % 2 == 0 { p[at(i)] } else { v[at(i)] }, twist: S::<C>::ZERO, log: log.clone() })); }
            let mut w = PartialWitness::new(); w.set_target(p[at(0)], val(0));
            let w = c.generate_partial_witness(w);
            let mut x = val(0);
            for i in 0..n { if i > 0 { x = weigh(i, &[x]); } for t in vec![p[at(i)], v[at(i)], wire(at(i))] { ensure!(w.contains_target(t) && w.get_target(t) == x, "chain: {:?} of public input {} has no or another value", t, at(i)); } }
            c.generators.truncate(own); cnt += 1;
        } }
        ctx.traces(cnt);
        Ok(cnt)
    }); });
}
fn main() {
    run("C16", "model_checking", "states: sets of completed generators; transitions: one ready generator runs; traces: runs of the implementation", |ctx| {
        let th = ctx.thorough;
        for n in 1..=3 { graphs::<Tweedledee>(ctx, n, if n == 3 { ctx.tier(2, KINDS) } else { KINDS }, true); }
        if th { graphs::<Pallas>(ctx, 4, 1, false); graphs::<Tweedledum>(ctx, 3, 2, true); }
        two_writers::<Tweedledee>(ctx);
        let mut items: Vec<(Vec<G>, usize)> = vec![];
        for (i, g) in LARGE.iter().enumerate() { if th || *g == Order || *g == Div { items.push((vec![*g], i % 2)); } }
        for (i, g) in SMALL.iter().enumerate() { items.push((vec![*g], 0)); items.push((vec![*g], [1, 2, 7, 9][i % 4])); }
        if th { for (i, g) in SMALL.iter().enumerate() { for h in &SMALL[..i] { items.push((vec![*g, *h], i % 3)); } } }
        ctx.par(items, move |(g, n)| circuit::<Tweedledee>(ctx, g.clone(), *n, ctx.tier(300, 20000)));
        if th { let mut i2: Vec<(Vec<G>, usize)> = vec![]; for g in &SMALL { i2.push((vec![*g], 2)); } ctx.par(i2, move |(g, n)| circuit::<Vesta>(ctx, g.clone(), *n, 5000)); }
        public_inputs::<Tweedledee>(ctx, if th { (0..=40).collect() } else { (0..=12).chain(17..20).chain(27..29).collect() });
    });
}
