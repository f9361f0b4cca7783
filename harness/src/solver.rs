//! Searches the satisfying assignments of a recorded system with some variables
//! fixed: propagation (linear, quadratic in one unknown, parity of integer
//! equations over bits) and branching. Finds a forged witness when one exists
//! within the branching budget.
use crate::reccs::*;
use ff::PrimeField;
use std::collections::{BTreeMap, HashMap, VecDeque};

/// 512-bit two's complement
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct I([u64; 8]);
impl I {
    pub const Z: I = I([0; 8]);
    pub fn neg(self) -> I {
        let mut r = [0; 8];
        let mut c = 1u128;
        for i in 0..8 {
            let t = (!self.0[i]) as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        I(r)
    }
    pub fn add(self, o: I) -> I {
        let mut r = [0; 8];
        let mut c = 0u128;
        for i in 0..8 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        I(r)
    }
    pub fn sub(self, o: I) -> I {
        self.add(o.neg())
    }
    pub fn is_neg(self) -> bool {
        self.0[7] >> 63 == 1
    }
    pub fn lt(self, o: I) -> bool {
        self.sub(o).is_neg()
    }
    pub fn tz(self) -> u32 {
        for i in 0..8 {
            if self.0[i] != 0 {
                return 64 * i as u32 + self.0[i].trailing_zeros();
            }
        }
        512
    }
    pub fn bit(self, k: u32) -> bool {
        k < 512 && self.0[(k / 64) as usize] >> (k % 64) & 1 == 1
    }
    pub fn of<F: PrimeField>(f: &F) -> I {
        let r = f.to_repr();
        let mut x = [0u64; 8];
        for (i, b) in r.as_ref().iter().enumerate() {
            x[i / 8] |= (*b as u64) << (8 * (i % 8));
        }
        I(x)
    }
}
pub struct Field<F: PrimeField> {
    pub p: I,
    _f: std::marker::PhantomData<F>,
}
impl<F: PrimeField> Field<F> {
    pub fn new() -> Self {
        let one = I([1, 0, 0, 0, 0, 0, 0, 0]);
        Field { p: I::of(&-F::ONE).add(one), _f: Default::default() }
    }
    /// smallest-magnitude representative
    pub fn signed(&self, f: &F) -> I {
        let a = I::of(f);
        let b = a.sub(self.p);
        if b.neg().lt(a) { b } else { a }
    }
}

#[derive(Clone)]
struct St<F> {
    val: HashMap<usize, F>,
    dom: HashMap<usize, (F, F)>,
}
pub struct Solver<F: PrimeField> {
    cons: Vec<(Terms<F>, Terms<F>, Terms<F>)>,
    occ: HashMap<usize, Vec<usize>>,
    vars: Vec<usize>,
    fld: Field<F>,
    pub nodes: usize,
    pub budget: usize,
    small: Option<u64>,
    hints: HashMap<usize, F>,
}
pub enum Verdict {
    /// every solution found satisfied the predicate
    Ok { solutions: usize, complete: bool },
    Bad(String),
}
impl<F: PrimeField> Solver<F> {
    pub fn new(cs: &RecCS<F>) -> Self {
        let cons: Vec<_> = cs.cons.iter().map(|(a, b, c)| (canon(a), canon(b), canon(c))).collect();
        let mut occ: HashMap<usize, Vec<usize>> = HashMap::new();
        for (k, (a, b, c)) in cons.iter().enumerate() {
            let mut vs: Vec<usize> = a.iter().chain(b).chain(c).map(|t| t.0).collect();
            vs.sort();
            vs.dedup();
            for v in vs {
                occ.entry(v).or_default().push(k);
            }
        }
        let mut vars: Vec<usize> = (0..cs.inputs.len()).map(|i| 2 * i).collect();
        vars.extend((0..cs.aux.len()).map(|i| 2 * i + 1));
        let small = if F::NUM_BITS <= 10 {
            let fld = Field::<F>::new();
            Some(fld.p.0[0])
        } else {
            None
        };
        let mut hints = HashMap::new();
        for v in &vars {
            let o = if v % 2 == 0 { cs.inputs[v / 2] } else { cs.aux[v / 2] };
            if let Some(x) = o {
                hints.insert(*v, x);
            }
        }
        Solver { cons, occ, vars, fld: Field::new(), nodes: 0, budget: 4000, small, hints }
    }
    fn set(&self, st: &mut St<F>, q: &mut VecDeque<usize>, v: usize, x: F) -> bool {
        if let Some(y) = st.val.get(&v) {
            return *y == x;
        }
        if let Some((a, b)) = st.dom.get(&v) {
            if *a != x && *b != x {
                return false;
            }
        }
        st.val.insert(v, x);
        if let Some(o) = self.occ.get(&v) {
            q.extend(o.iter().copied());
        }
        true
    }
    fn split(&self, st: &St<F>, t: &Terms<F>) -> (F, Terms<F>) {
        let mut k = F::ZERO;
        let mut u = vec![];
        for (v, c) in t {
            match st.val.get(v) {
                Some(x) => k += *x * c,
                None => u.push((*v, *c)),
            }
        }
        (k, u)
    }
    fn linear(&self, st: &mut St<F>, q: &mut VecDeque<usize>, k: F, u: Terms<F>) -> bool {
        let u = canon(&u);
        if u.is_empty() {
            return k.is_zero_vartime();
        }
        if u.len() == 1 {
            let x = -k * u[0].1.invert().unwrap();
            return self.set(st, q, u[0].0, x);
        }
        // integer equation over bits
        let bit = |st: &St<F>, v: &usize| matches!(st.dom.get(v), Some((a, b)) if a.is_zero_vartime() && *b == F::ONE);
        if !u.iter().all(|(v, _)| bit(st, v)) {
            return true;
        }
        let mut cs: Vec<(usize, F, I)> = u.iter().map(|(v, c)| (*v, *c, self.fld.signed(c))).collect();
        let (mut lo, mut hi) = (I::Z, I::Z);
        for (_, _, c) in &cs {
            if c.is_neg() { lo = lo.add(*c) } else { hi = hi.add(*c) }
        }
        // sum == t for the t = -k (mod p) in [lo, hi]
        let mut t = self.fld.signed(&-k);
        while !t.sub(self.fld.p).lt(lo) {
            t = t.sub(self.fld.p);
        }
        while t.lt(lo) {
            t = t.add(self.fld.p);
        }
        cs.sort_by_key(|c| c.2.tz());
        let mut found: Option<Vec<(usize, bool)>> = None;
        let mut tries = 0;
        while !hi.lt(t) {
            tries += 1;
            if tries > 8 {
                return true;
            }
            match Self::bits_of(&cs, t) {
                (false, _) => {}
                (true, l) => match &found {
                    None => found = Some(l),
                    Some(_) => return true,
                },
            }
            t = t.add(self.fld.p);
        }
        match found {
            None => false,
            Some(l) => {
                for (v, b) in l {
                    if !self.set(st, q, v, if b { F::ONE } else { F::ZERO }) {
                        return false;
                    }
                }
                true
            }
        }
    }
    /// the bits forced by sum == t (terms sorted by lowest set bit); false if impossible
    fn bits_of(cs: &[(usize, F, I)], mut t: I) -> (bool, Vec<(usize, bool)>) {
        let mut out = vec![];
        for i in 0..cs.len() {
            let m = cs[i].2.tz();
            if t.tz() < m {
                return (false, out);
            }
            if i + 1 < cs.len() && cs[i + 1].2.tz() == m {
                return (true, out);
            }
            let b = t.bit(m);
            if b {
                t = t.sub(cs[i].2);
            }
            out.push((cs[i].0, b));
        }
        (t == I::Z, out)
    }
    fn step(&self, st: &mut St<F>, q: &mut VecDeque<usize>, k: usize) -> bool {
        let (a, b, c) = &self.cons[k];
        let (ka, ua) = self.split(st, a);
        let (kb, ub) = self.split(st, b);
        let (kc, uc) = self.split(st, c);
        if ua.is_empty() || ub.is_empty() {
            let (kn, k2, mut u) = if ua.is_empty() { (ka, kb, ub) } else { (kb, ka, ua) };
            for t in u.iter_mut() {
                t.1 *= kn;
            }
            u.extend(uc.iter().map(|(v, c)| (*v, -*c)));
            return self.linear(st, q, kn * k2 - kc, u);
        }
        // single unknown quadratic
        let v0 = ua[0].0;
        if ua.iter().chain(&ub).chain(&uc).all(|t| t.0 == v0) {
            let (x, y, z) = (ua[0].1, ub[0].1, uc.get(0).map_or(F::ZERO, |t| t.1));
            // (x v + ka)(y v + kb) - z v - kc
            let (q2, q1, q0) = (x * y, x * kb + y * ka - z, ka * kb - kc);
            let inv2a = (q2.double()).invert().unwrap();
            let disc = q1.square() - (q2 * q0).double().double();
            let r = disc.sqrt();
            if r.is_none().into() {
                return false;
            }
            let r = r.unwrap();
            let (r1, r2) = ((-q1 + r) * inv2a, (-q1 - r) * inv2a);
            if r1 == r2 {
                return self.set(st, q, v0, r1);
            }
            let (r1, r2) = if r2.is_zero_vartime() { (r2, r1) } else { (r1, r2) };
            match st.dom.get(&v0).copied() {
                None => {
                    st.dom.insert(v0, (r1, r2));
                    if let Some(o) = self.occ.get(&v0) {
                        q.extend(o.iter().copied());
                    }
                }
                Some((d1, d2)) => {
                    let ok: Vec<F> = [d1, d2].iter().copied().filter(|d| *d == r1 || *d == r2).collect();
                    match ok.len() {
                        0 => return false,
                        1 => return self.set(st, q, v0, ok[0]),
                        _ => {}
                    }
                }
            }
        }
        true
    }
    fn propagate(&self, st: &mut St<F>, q: &mut VecDeque<usize>) -> bool {
        let mut inq: Vec<bool> = vec![false; self.cons.len()];
        let mut q2: VecDeque<usize> = VecDeque::new();
        for k in q.drain(..) {
            if !inq[k] {
                inq[k] = true;
                q2.push_back(k);
            }
        }
        while let Some(k) = q2.pop_front() {
            inq[k] = false;
            let mut add = VecDeque::new();
            if !self.step(st, &mut add, k) {
                return false;
            }
            for j in add {
                if !inq[j] {
                    inq[j] = true;
                    q2.push_back(j);
                }
            }
        }
        true
    }
    /// All solutions extending `fixed`; stops at the first that fails `pred`.
    pub fn search(&mut self, fixed: &[(usize, F)], pred: &mut dyn FnMut(&dyn Fn(usize) -> F) -> Result<(), String>) -> Verdict {
        let mut st = St { val: HashMap::new(), dom: HashMap::new() };
        let mut q = VecDeque::new();
        self.set(&mut st, &mut q, 0, F::ONE);
        for (v, x) in fixed {
            if !self.set(&mut st, &mut q, *v, *x) {
                return Verdict::Ok { solutions: 0, complete: true };
            }
        }
        q.extend(0..self.cons.len());
        self.nodes = 0;
        let mut sols = 0;
        let mut complete = true;
        let mut stack = vec![(st, q)];
        while let Some((mut st, mut q)) = stack.pop() {
            self.nodes += 1;
            if self.nodes > self.budget {
                complete = false;
                break;
            }
            if !self.propagate(&mut st, &mut q) {
                continue;
            }
            let unk = self.vars.iter().filter(|v| !st.val.contains_key(v));
            // prefer two-valued variables
            let mut pick = None;
            for v in unk {
                if st.dom.contains_key(v) {
                    pick = Some(*v);
                    break;
                }
                if pick.is_none() {
                    pick = Some(*v);
                }
            }
            match pick {
                None => {
                    // re-check everything independently
                    let f = |n: usize| st.val[&n];
                    for (a, b, c) in &self.cons {
                        if evt(a, &f) * evt(b, &f) != evt(c, &f) {
                            panic!("harness solver produced a non-solution");
                        }
                    }
                    sols += 1;
                    if let Err(e) = pred(&f) {
                        let mut m: BTreeMap<usize, String> = BTreeMap::new();
                        for v in self.vars.iter().take(40) {
                            m.insert(*v, hexf(&st.val[v]));
                        }
                        return Verdict::Bad(format!("{}; forged satisfying assignment (input i = 2i, aux i = 2i+1): {:?}", e, m));
                    }
                }
                Some(v) => {
                    let cands: Vec<F> = match st.dom.get(&v) {
                        Some((a, b)) => vec![*a, *b],
                        None => match self.small {
                            Some(p) => (0..p).map(F::from).collect(),
                            None => {
                                complete = false;
                                let mut c = vec![F::ZERO, F::ONE, F::from(2), F::from(77777), -F::ONE];
                                if let Some(h) = self.hints.get(&v) {
                                    c.push(*h + F::ONE);
                                    c.push(h.double());
                                }
                                c
                            }
                        },
                    };
                    for x in cands {
                        let mut s2 = st.clone();
                        let mut q2 = VecDeque::new();
                        if self.set(&mut s2, &mut q2, v, x) {
                            stack.push((s2, q2));
                        }
                    }
                }
            }
        }
        Verdict::Ok { solutions: sols, complete }
    }
}
pub fn hexf<F: PrimeField>(f: &F) -> String {
    let r = f.to_repr();
    let mut s: String = r.as_ref().iter().rev().map(|b| format!("{:02x}", b)).collect();
    while s.len() > 1 && s.starts_with('0') {
        s.remove(0);
    }
    s
}
