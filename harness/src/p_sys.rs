//! C14 (the testing constraint system) and C20 (namespaces and references)
use crate::fp::*;
use crate::p_gadgets::{rf, Bls};
use crate::reccs::*;
use crate::report::*;
use crate::solver::hexf;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, Namespace, SynthesisError, Variable};
use ff::{Field, PrimeField};
use rand_core::{RngCore, SeedableRng};
use rand_xorshift::XorShiftRng;
use std::collections::BTreeMap;

type Lc<F> = LinearCombination<F>;

// ---------------------------------------------------------------- C14
#[derive(Clone, Copy, PartialEq, Debug)]
enum Obj {
    Var(usize),
    Con,
    Ns,
}
struct Model<F> {
    names: BTreeMap<String, Obj>,
    path: Vec<String>,
    inputs: Vec<(F, String)>,
    aux: Vec<(F, String)>,
    cons: Vec<(Terms<F>, Terms<F>, Terms<F>, String)>,
}
impl<F: PrimeField> Model<F> {
    fn new() -> Self {
        let mut names = BTreeMap::new();
        names.insert("ONE".to_string(), Obj::Var(0));
        Model { names, path: vec![], inputs: vec![(F::ONE, "ONE".into())], aux: vec![], cons: vec![] }
    }
    fn full(&self, n: &str) -> String {
        let mut p = self.path.clone();
        p.push(n.to_string());
        p.join("/")
    }
    fn val(&self, n: usize) -> F {
        if n % 2 == 0 { self.inputs[n / 2].0 } else { self.aux[n / 2].0 }
    }
    fn bad(&self) -> Option<&str> {
        let f = |n: usize| self.val(n);
        self.cons.iter().find(|(a, b, c, _)| evt(a, &f) * evt(b, &f) != evt(c, &f)).map(|x| x.3.as_str())
    }
}
fn rterms<F: PrimeField>(r: &mut XorShiftRng, ni: usize, na: usize) -> Terms<F> {
    (0..r.next_u32() % 4).map(|_| {
        let v = if na == 0 || r.next_u32() % 2 == 0 { 2 * (r.next_u32() as usize % ni) } else { 2 * (r.next_u32() as usize % na) + 1 };
        (v, rf(r))
    }).collect()
}
fn build<F: PrimeField>(t: &Terms<F>) -> Lc<F> {
    t.iter().fold(LinearCombination::zero(), |a, (v, c)| a + (*c, var(*v)))
}
fn check_all<F: PrimeField>(cs: &mut TestConstraintSystem<F>, m: &Model<F>) -> Result<(), String> {
    ensure(cs.which_is_unsatisfied() == m.bad(), || format!("first unsatisfied {:?}, expected {:?}", cs.which_is_unsatisfied(), m.bad()))?;
    ensure(cs.is_satisfied() == m.bad().is_none(), || format!("is_satisfied {}", cs.is_satisfied()))?;
    ensure(cs.num_constraints() == m.cons.len() && cs.num_inputs() == m.inputs.len(), || "counts".into())?;
    for (i, (x, n)) in m.inputs.iter().enumerate() {
        ensure(cs.get_input(i, n) == *x, || format!("input {} ({})", i, n))?;
        ensure(cs.get(n) == *x, || format!("value of {}", n))?;
    }
    for (x, n) in &m.aux {
        ensure(cs.get(n) == *x, || format!("value of {}", n))?;
    }
    let right: Vec<F> = m.inputs.iter().skip(1).map(|x| x.0).collect();
    ensure(cs.verify(&right), || "the right public inputs are refused".into())?;
    for i in 0..right.len() {
        let mut w = right.clone();
        w[i] += F::ONE;
        ensure(!cs.verify(&w), || format!("wrong public input {} accepted", i))?;
    }
    if right.len() > 1 && right[0] != right[1] {
        let mut w = right.clone();
        w.swap(0, 1);
        ensure(!cs.verify(&w), || "swapped public inputs accepted".into())?;
    }
    Ok(())
}
fn c14_f<F: PrimeField>(r: &mut Rep, f: &str) {
    for k in 0..r.n(150, 4000) {
        r.case(&format!("{} history {}", f, k), |g| {
            let mut cs = if k % 2 == 0 { TestConstraintSystem::<F>::new() } else { TestConstraintSystem::<F>::default() };
            let mut m = Model::<F>::new();
            let names = ["a", "b", "c", "d", "x1", "", "ONE", "a b", "ab", "é", "ns", "ns2"];
            let mut log = String::new();
            check_all(&mut cs, &m)?;
            for step in 0..(10 + k % 25) {
                let n = format!("{}{}", names[g.next_u32() as usize % names.len()], if g.next_u32() % 3 == 0 { String::new() } else { format!("{}", g.next_u32() % 20) });
                let full = m.full(&n);
                let taken = m.names.contains_key(&full);
                let op = g.next_u32() % 9;
                log.push_str(&format!(" {}:{}", op, full));
                let tag = |e: String| format!("{} after{}", e, log);
                if taken && op <= 3 {
                    // must be refused; nobody can continue with this system
                    let p = panics(|| match op {
                        0 => { let _ = cs.alloc(|| n.clone(), || Ok(F::ONE)); }
                        1 => { let _ = cs.alloc_input(|| n.clone(), || Ok(F::ONE)); }
                        2 => cs.enforce(|| n.clone(), |l| l, |l| l, |l| l),
                        _ => cs.push_namespace(|| n.clone()),
                    });
                    return ensure(p, || tag(format!("the name {} is used twice", full))).map(|_| 1);
                }
                match op {
                    0 | 1 => {
                        let x: F = rf(g);
                        let fails = g.next_u32() % 6 == 0;
                        let w = || if fails { Err(SynthesisError::DivisionByZero) } else { Ok(x) };
                        let res = if op == 0 { cs.alloc(|| n.clone(), w) } else { cs.alloc_input(|| n.clone(), w) };
                        match res {
                            Ok(v) => {
                                ensure(!fails, || tag("failing value accepted".into()))?;
                                let want = if op == 0 { 2 * m.aux.len() + 1 } else { 2 * m.inputs.len() };
                                ensure(vn(v) == want, || tag(format!("variable {} expected {}", vn(v), want)))?;
                                m.names.insert(full.clone(), Obj::Var(want));
                                if op == 0 { m.aux.push((x, full.clone())) } else { m.inputs.push((x, full.clone())) }
                            }
                            Err(SynthesisError::DivisionByZero) => ensure(fails, || tag("value refused".into()))?,
                            Err(e) => return Err(tag(format!("{:?}", e))),
                        }
                    }
                    2 => {
                        let (a, b, mut c): (Terms<F>, Terms<F>, Terms<F>) = (rterms(g, m.inputs.len(), m.aux.len()), rterms(g, m.inputs.len(), m.aux.len()), rterms(g, m.inputs.len(), m.aux.len()));
                        if g.next_u32() % 4 != 0 {
                            // make it hold
                            let v = |n: usize| m.val(n);
                            let d = evt(&a, &v) * evt(&b, &v) - evt(&c, &v);
                            c.push((0, d * m.inputs[0].0.invert().unwrap_or(F::ZERO)));
                        }
                        cs.enforce(|| n.clone(), |_| build(&a), |l| l + &build(&b), |l| l + &build(&c));
                        m.names.insert(full.clone(), Obj::Con);
                        m.cons.push((a, b, c, full.clone()));
                    }
                    3 => {
                        cs.push_namespace(|| n.clone());
                        m.names.insert(full.clone(), Obj::Ns);
                        m.path.push(n.clone());
                    }
                    4 => {
                        if m.path.pop().is_some() {
                            cs.pop_namespace();
                        }
                    }
                    _ => {
                        // overwrite one variable
                        let keys: Vec<(String, Obj)> = m.names.iter().map(|(a, b)| (a.clone(), *b)).collect();
                        let (key, o) = &keys[g.next_u32() as usize % keys.len()];
                        let x: F = rf(g);
                        match o {
                            Obj::Var(v) => {
                                cs.set(key, x);
                                if v % 2 == 0 { m.inputs[v / 2].0 = x } else { m.aux[v / 2].0 = x }
                            }
                            _ => {
                                ensure(panics(|| { cs.get(key); }), || tag(format!("{} is not a variable but has a value", key)))?;
                                ensure(panics(|| cs.set(key, x)), || tag(format!("{} is not a variable but can be set", key)))?;
                            }
                        }
                    }
                }
                let _ = step;
                check_all(&mut cs, &m).map_err(|e| format!("{} after{}", e, log))?;
            }
            ensure(panics(|| { cs.get("no such variable"); }), || "a missing variable has a value".into())?;
            ensure(panics(|| cs.set("no such variable", F::ONE)), || "a missing variable can be set".into())?;
            ensure(panics(|| { let _ = cs.alloc(|| "a/b", || Ok(F::ONE)); }), || "separator in a name".into())?;
            let e = vec![F::ZERO; m.inputs.len()];
            ensure(panics(|| { cs.verify(&e); }), || "verify with too many inputs".into())?;
            Ok(1)
        });
    }
}
/// a description of a system, for digests
#[derive(Clone)]
struct Desc {
    ni: usize,
    na: usize,
    cons: Vec<(Terms<Bls>, Terms<Bls>, Terms<Bls>)>,
}
fn realize(d: &Desc, names: u64, g: &mut XorShiftRng) -> TestConstraintSystem<Bls> {
    let mut cs = TestConstraintSystem::<Bls>::new();
    for i in 0..d.ni {
        let x = Bls::random(&mut *g);
        cs.alloc_input(|| format!("i{}_{}", names, i), || Ok(x)).unwrap();
    }
    for i in 0..d.na {
        let x = Bls::random(&mut *g);
        cs.alloc(|| format!("a{}_{}", names, i), || Ok(x)).unwrap();
    }
    for (k, (a, b, c)) in d.cons.iter().enumerate() {
        cs.enforce(|| format!("c{}_{}", names, k), |_| build(a), |_| build(b), |_| build(c));
    }
    cs
}
fn c14_hash(r: &mut Rep) {
    for k in 0..r.n(60, 1500) {
        r.case(&format!("digest {}", k), |g| {
            let ni = g.next_u32() as usize % 4;
            let na = 1 + g.next_u32() as usize % 4;
            let nc = 1 + g.next_u32() as usize % 4;
            let d = Desc { ni, na, cons: (0..nc).map(|_| (rterms(g, ni + 1, na), rterms(g, ni + 1, na), rterms(g, ni + 1, na))).collect() };
            let key = |d: &Desc| (d.ni, d.na, d.cons.iter().map(|(a, b, c)| (canon(a), canon(b), canon(c))).collect::<Vec<_>>());
            let h = realize(&d, 0, g).hash();
            ensure(realize(&d, 7, g).hash() == h, || "digest depends on names or values".into())?;
            // order of terms, duplicated and zero terms do not matter
            let mut e = d.clone();
            for c in e.cons.iter_mut() {
                c.0.reverse();
                c.1.push((0, Bls::ZERO));
                c.2.push((1, Bls::ONE));
                c.2.push((1, -Bls::ONE));
            }
            ensure(realize(&e, 0, g).hash() == h, || "digest depends on the way terms are written".into())?;
            // every single structural change shows
            let mut n = 0;
            let mut vs: Vec<Desc> = vec![];
            let mut add = |f: &dyn Fn(&mut Desc)| { let mut e = d.clone(); f(&mut e); vs.push(e) };
            add(&|e| e.ni += 1);
            add(&|e| e.na += 1);
            add(&|e| e.cons.push((vec![], vec![], vec![])));
            add(&|e| { e.cons.pop(); });
            for k in 0..nc {
                for s in 0..3 {
                    for v in 0..(ni + 1 + na) {
                        let v = if v <= ni { 2 * v } else { 2 * (v - ni - 1) + 1 };
                        for c in [Bls::ONE, -Bls::ONE, ff::Field::pow_vartime(&Bls::from(2), [128u64]), Bls::from(256)] {
                            add(&|e| { let t = &mut e.cons[k]; let t = match s { 0 => &mut t.0, 1 => &mut t.1, _ => &mut t.2 }; t.push((v, c)) });
                        }
                    }
                }
                add(&|e| { let t = &mut e.cons[k]; std::mem::swap(&mut t.0, &mut t.1) });
                add(&|e| { let t = &mut e.cons[k]; std::mem::swap(&mut t.0, &mut t.2) });
                add(&|e| { let t = &mut e.cons[k]; std::mem::swap(&mut t.1, &mut t.2) });
                add(&|e| { let t = e.cons[k].clone(); e.cons.push(t) });
                if k > 0 {
                    add(&|e| e.cons.swap(0, k));
                    add(&|e| { let x = e.cons[k].0.clone(); e.cons[k].0 = e.cons[0].2.clone(); e.cons[0].2 = x; });
                }
                // swap an input and an auxiliary variable
                add(&|e| { let cc = &mut e.cons[k]; for t in [&mut cc.0, &mut cc.1, &mut cc.2] { for x in t.iter_mut() { x.0 = match x.0 { 0 => 1, 1 => 0, y => y } } } });
            }
            for e in vs {
                let eq = key(&e) == key(&d);
                let he = realize(&e, 0, g).hash();
                ensure((he == h) == eq, || format!("digest equal: {}, systems equal: {}", he == h, eq))?;
                n += 1;
            }
            Ok(n)
        });
    }
    r.case("pretty_print", |g| {
        // every constraint line names the constraint and its variables
        let d = Desc { ni: 1, na: 1, cons: vec![(vec![(2, Bls::from(5))], vec![(1, Bls::ONE)], vec![(0, -Bls::ONE)]), (vec![], vec![(1, Bls::ONE), (1, -Bls::ONE)], vec![])] };
        let s = realize(&d, 3, g).pretty_print();
        ensure(s.contains("c3_0") && s.contains("c3_1") && s.contains("`i3_0`") && s.contains("`a3_0`") && s.contains("`ONE`"), || s.clone())?;
        Ok(1)
    });
}
pub fn c14(r: &mut Rep) {
    r.rule = "random histories of allocations (failing ones included), constraints, namespaces and overwrites against an independent model, every observation compared after each step; digests compared under every single structural change of random systems".into();
    c14_f::<Fp<3>>(r, "F3");
    c14_f::<Fp<13>>(r, "F13");
    c14_f::<Bls>(r, "Bls");
    c14_hash(r);
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug)]
enum Op<F> {
    Alloc(String, Result<F, u8>),
    Input(String, Result<F, u8>),
    Enforce(String, Terms<F>, Terms<F>, Terms<F>),
    /// nested block: name, style, body; the body ends with an error when `fail`
    Ns(String, u32, Vec<Op<F>>, bool),
    One,
}
fn err(k: u8) -> SynthesisError {
    match k {
        0 => SynthesisError::AssignmentMissing,
        1 => SynthesisError::DivisionByZero,
        2 => SynthesisError::Unsatisfiable,
        3 => SynthesisError::UnconstrainedVariable,
        _ => SynthesisError::UnexpectedIdentity,
    }
}
fn rops<F: PrimeField>(g: &mut XorShiftRng, depth: u32, n: usize) -> Vec<Op<F>> {
    (0..n).map(|i| {
        let nm = format!("{}{}", ["x", "y", ""][g.next_u32() as usize % 3], i);
        let v = if g.next_u32() % 5 == 0 { Err((g.next_u32() % 5) as u8) } else { Ok(rf::<F>(g)) };
        match g.next_u32() % 7 {
            0 | 1 => Op::Alloc(nm, v),
            2 => Op::Input(nm, v),
            3 => Op::Enforce(nm, rterms(g, 3, 3), rterms(g, 3, 3), rterms(g, 3, 3)),
            4 => Op::One,
            _ if depth > 0 => {
                let m = g.next_u32() as usize % 5;
                let st = g.next_u32() % 4;
                Op::Ns(nm, st, rops(g, depth - 1, m), g.next_u32() % 4 == 0)
            }
            _ => Op::Alloc(nm, v),
        }
    }).collect()
}
type Log = Vec<String>;
fn show(r: Result<Variable, SynthesisError>) -> String {
    match r {
        Ok(v) => format!("v{}", vn(v)),
        Err(e) => format!("{:?}", e),
    }
}
macro_rules! runner {
    ($name:ident, $next:ident) => {
        fn $name<F: PrimeField, CS: ConstraintSystem<F>>(mut cs: CS, ops: &[Op<F>], log: &mut Log) {
            for o in ops {
                match o {
                    Op::Alloc(n, v) => {
                        let mut calls = 0;
                        let r = cs.alloc(|| n.clone(), || { calls += 1; v.map_err(err) });
                        log.push(format!("{} calls {}", show(r), calls));
                    }
                    Op::Input(n, v) => {
                        let mut calls = 0;
                        let r = cs.alloc_input(|| n.clone(), || { calls += 1; v.map_err(err) });
                        log.push(format!("{} calls {}", show(r), calls));
                    }
                    Op::Enforce(n, a, b, c) => cs.enforce(|| n.clone(), |l| build(a) + &l, |l| l + &build(b), |l| l + &build(c)),
                    Op::One => log.push(format!("one {}", vn(CS::one()))),
                    Op::Ns(n, style, body, fail) => {
                        let res: Result<(), SynthesisError> = (|| {
                            match style {
                                0 => { let ns = cs.namespace(|| n.clone()); $next(ns, body, log); }
                                1 => { let mut ns = cs.namespace(|| n.clone()); $next(&mut ns, body, log); }
                                2 => { let mut r = &mut cs; let ns = ConstraintSystem::namespace(&mut r, || n.clone()); $next(ns, body, log); }
                                _ => { let mut ns = cs.get_root().namespace(|| n.clone()); let mut m = &mut ns; $next(&mut m, body, log); }
                            }
                            Ok(())
                        })();
                        assert!(res.is_ok());
                        if *fail {
                            // leaving a namespace by an error
                            let r: Result<Variable, SynthesisError> = (|| {
                                let mut ns = cs.namespace(|| format!("{}!", n));
                                ns.alloc(|| "e", || Err(SynthesisError::Unsatisfiable))?;
                                ns.alloc(|| "unreachable", || Ok(F::ONE))
                            })();
                            log.push(show(r));
                        }
                    }
                }
            }
        }
    };
}
fn run_end<F: PrimeField, CS: ConstraintSystem<F>>(mut cs: CS, ops: &[Op<F>], log: &mut Log) {
    assert!(ops.is_empty());
    let _ = (cs.get_root(), log);
}
runner!(run0, run_end);
runner!(run1, run0);
runner!(run2, run1);
runner!(run3, run2);

struct Exp<F: PrimeField> {
    ev: Vec<Ev<F>>,
    ni: usize,
    na: usize,
    prove: bool,
    one: usize,
}
fn expect<F: PrimeField>(x: &mut Exp<F>, ops: &[Op<F>], log: &mut Log) {
    for o in ops {
        match o {
            Op::Alloc(n, v) | Op::Input(n, v) => {
                let input = matches!(o, Op::Input(..));
                x.ev.push(if input { Ev::Input(n.clone()) } else { Ev::Alloc(n.clone()) });
                let calls = x.prove as u32;
                if let (true, Err(k)) = (x.prove, v) {
                    log.push(format!("{:?} calls {}", err(*k), calls));
                } else {
                    let id = if input { x.ni += 1; 2 * (x.ni - 1) } else { x.na += 1; 2 * (x.na - 1) + 1 };
                    log.push(format!("v{} calls {}", id, calls));
                }
            }
            Op::Enforce(n, a, b, c) => x.ev.push(Ev::Enforce(n.clone(), terms(&build(a)), terms(&build(b)), terms(&build(c)))),
            Op::One => log.push(format!("one {}", x.one)),
            Op::Ns(n, _, body, fail) => {
                x.ev.push(Ev::Push(n.clone()));
                expect(x, body, log);
                x.ev.push(Ev::Pop);
                if *fail {
                    x.ev.push(Ev::Push(format!("{}!", n)));
                    x.ev.push(Ev::Alloc("e".into()));
                    if x.prove {
                        log.push("Unsatisfiable".into());
                    } else {
                        x.ev.push(Ev::Alloc("unreachable".into()));
                        x.na += 2;
                        log.push(format!("v{}", 2 * (x.na - 1) + 1));
                    }
                    x.ev.push(Ev::Pop);
                }
            }
        }
    }
}
/// A system whose unit variable and root are not the defaults.
struct OddCS<F: PrimeField>(RecCS<F>, u32);
impl<F: PrimeField> ConstraintSystem<F> for OddCS<F> {
    type Root = RecCS<F>;
    fn one() -> Variable {
        Variable::new_unchecked(Index::Aux(5))
    }
    fn alloc<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError>
    where FN: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        self.0.alloc(a, f)
    }
    fn alloc_input<FN, A, AR>(&mut self, a: A, f: FN) -> Result<Variable, SynthesisError>
    where FN: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        self.0.alloc_input(a, f)
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, ann: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>, LA: FnOnce(Lc<F>) -> Lc<F>, LB: FnOnce(Lc<F>) -> Lc<F>, LC: FnOnce(Lc<F>) -> Lc<F> {
        self.0.enforce(ann, a, b, c)
    }
    fn push_namespace<NR, N>(&mut self, n: N) where NR: Into<String>, N: FnOnce() -> NR {
        self.1 += 1;
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.1 += 1;
        self.0.pop_namespace()
    }
    fn get_root(&mut self) -> &mut RecCS<F> {
        &mut self.0
    }
}
struct Prog<'a, F: PrimeField>(&'a [Op<F>], &'a mut Log);
impl<'a, F: PrimeField> Circuit<F> for Prog<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        run3(cs, self.0, self.1);
        Ok(())
    }
}
fn c20_f<F: PrimeField>(r: &mut Rep, f: &str) {
    for k in 0..r.n(300, 8000) {
        r.case(&format!("{} program {}", f, k), |g| {
            let ops: Vec<Op<F>> = rops(g, 3, 3 + k % 8);
            let mode = if k % 3 == 0 { Mode::Setup } else { Mode::Prove };
            let mut x = Exp { ev: vec![], ni: 1, na: 0, prove: mode == Mode::Prove, one: 0 };
            let mut want = vec![];
            expect(&mut x, &ops, &mut want);
            for via in 0..5 {
                let mut cs = RecCS::<F>::new(mode);
                cs.log = true;
                let mut log = vec![];
                match via {
                    0 => run3(&mut cs, &ops, &mut log),
                    1 => { let mut c = &mut cs; run3(&mut c, &ops, &mut log) }
                    2 => Prog(&ops, &mut log).synthesize(&mut cs).map_err(|e| format!("{:?}", e))?,
                    3 => {
                        let mut a = &mut cs;
                        let mut b = &mut a;
                        let c = &mut b;
                        run3(c, &ops, &mut log)
                    }
                    _ => {
                        let mut odd = OddCS(cs, 0);
                        run3(&mut odd, &ops, &mut log);
                        ensure(odd.1 == 0, || "namespace entered or left outside the root".into())?;
                        cs = odd.0;
                        let mut y = Exp { ev: vec![], ni: 1, na: 0, prove: mode == Mode::Prove, one: 11 };
                        let mut w = vec![];
                        expect(&mut y, &ops, &mut w);
                        // inside a namespace the unit variable is the root's
                        let fix = |l: &Log| l.iter().filter(|s| !s.starts_with("one")).cloned().collect::<Vec<_>>();
                        ensure(fix(&log) == fix(&w), || format!("results {:?}, expected {:?} for {:?}", log, w, ops))?;
                        log = want.clone();
                    }
                }
                ensure(log == want, || format!("results {:?}, expected {:?} for {:?}", log, want, ops))?;
                ensure(cs.depth == 0, || format!("{} namespaces left open by {:?}", cs.depth, ops))?;
                ensure(cs.events == x.ev, || {
                    let p = cs.events.iter().zip(&x.ev).position(|(a, b)| a != b).unwrap_or(cs.events.len().min(x.ev.len()));
                    format!("event {} is {:?}, expected {:?} for {:?}", p, cs.events.get(p), x.ev.get(p), ops)
                })?;
                // recorded values
                if mode == Mode::Prove {
                    let mut wi: Vec<Option<F>> = vec![Some(F::ONE)];
                    let mut wa = vec![];
                    fn coll<F: PrimeField>(o: &[Op<F>], wi: &mut Vec<Option<F>>, wa: &mut Vec<Option<F>>) {
                        for o in o {
                            match o {
                                Op::Alloc(_, Ok(v)) => wa.push(Some(*v)),
                                Op::Input(_, Ok(v)) => wi.push(Some(*v)),
                                Op::Ns(_, _, b, _) => coll(b, wi, wa),
                                _ => {}
                            }
                        }
                    }
                    coll(&ops, &mut wi, &mut wa);
                    ensure(cs.inputs == wi && cs.aux == wa, || "recorded values".into())?;
                }
            }
            Ok(1)
        });
    }
    r.case(&format!("{} one", f), |_| {
        type O<F> = OddCS<F>;
        ensure(vn(<&mut O<F> as ConstraintSystem<F>>::one()) == 11, || "unit variable through a reference".into())?;
        ensure(vn(<Namespace<'_, F, O<F>> as ConstraintSystem<F>>::one()) == 11, || "unit variable through a namespace".into())?;
        ensure(vn(<&mut &mut Namespace<'_, F, O<F>> as ConstraintSystem<F>>::one()) == 11, || "unit variable through a nest".into())?;
        ensure(vn(<RecCS<F> as ConstraintSystem<F>>::one()) == 0, || "default unit variable".into())?;
        Ok(1)
    });
    r.case(&format!("{} references forward namespace calls", f), |_| {
        let mut cs = RecCS::<F>::new(Mode::Prove);
        cs.log = true;
        {
            let mut a = &mut cs;
            let b = &mut a;
            b.push_namespace(|| "p");
            b.pop_namespace();
            ConstraintSystem::<F>::get_root(b).push_namespace(|| "q");
        }
        ensure(cs.events == vec![Ev::Push("p".into()), Ev::Pop, Ev::Push("q".into())], || format!("{:?}", cs.events))?;
        // a namespace is never a root
        let p = panics(|| { let mut c = RecCS::<F>::new(Mode::Prove); c.namespace(|| "n").push_namespace(|| "m"); });
        let q = panics(|| { let mut c = RecCS::<F>::new(Mode::Prove); c.namespace(|| "n").pop_namespace(); });
        ensure(p && q, || "a namespace acts as a root".into())?;
        Ok(1)
    });
    let _ = hexf::<F>;
    let _ = XorShiftRng::seed_from_u64;
}
pub fn c20(r: &mut Rep) {
    r.rule = "random programs of allocations, constraints and nested namespaces (four ways of entering one, errors inside) run through five kinds of reference, compared event by event and result by result with their plain meaning".into();
    c20_f::<Fp<13>>(r, "F13");
    c20_f::<Bls>(r, "Bls");
}
