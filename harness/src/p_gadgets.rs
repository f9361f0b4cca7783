//! C01-C04, C09, C10
use crate::fp::*;
use crate::reccs::*;
use crate::report::*;
use crate::solver::*;
use bellman::gadgets::boolean::*;
use bellman::gadgets::lookup::*;
use bellman::gadgets::multipack::*;
use bellman::gadgets::num::*;
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{PrimeField, PrimeFieldBits};
use rand_core::RngCore;
use std::collections::BTreeMap;

pub type Bls = bls12_381::Scalar;

#[macro_export]
macro_rules! all_fields {
    ($f:ident, $r:expr) => {
        $f::<Fp<3>>($r, "F3");
        $f::<Fp<5>>($r, "F5");
        $f::<Fp<7>>($r, "F7");
        $f::<Fp<13>>($r, "F13");
        $f::<Fp<GOLD>>($r, "Gold");
        $f::<Bls>($r, "Bls");
    };
}
pub fn rf<F: PrimeField>(r: &mut impl RngCore) -> F {
    match r.next_u32() % 8 {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => F::from(2),
        4 => F::from(r.next_u64() % 16),
        _ => F::random(r),
    }
}
pub fn b2f<F: PrimeField>(b: bool) -> F {
    if b { F::ONE } else { F::ZERO }
}

// ---------------------------------------------------------------- C01
type Model<F> = BTreeMap<usize, F>;
fn madd<F: PrimeField>(m: &mut Model<F>, v: usize, c: F) {
    *m.entry(v).or_insert(F::ZERO) += c;
}
fn same<F: PrimeField>(l: &LinearCombination<F>, m: &Model<F>) -> Result<(), String> {
    let a = canon(&terms(l));
    let b: Terms<F> = m.iter().filter(|(_, c)| !c.is_zero_vartime()).map(|(v, c)| (*v, *c)).collect();
    if a != b {
        let d = |t: &Terms<F>| t.iter().map(|(v, c)| format!("{}*v{}", hexf(c), v)).collect::<Vec<_>>().join(" + ");
        return Err(format!("combination is [{}], expected [{}]", d(&a), d(&b)));
    }
    Ok(())
}
fn c01_f<F: PrimeField>(r: &mut Rep, f: &str) {
    let vars: Vec<Variable> = vec![
        Variable::new_unchecked(Index::Input(0)),
        Variable::new_unchecked(Index::Input(1)),
        Variable::new_unchecked(Index::Aux(0)),
        Variable::new_unchecked(Index::Aux(1)),
        Variable::new_unchecked(Index::Aux(70)),
    ];
    let step = |l: LinearCombination<F>, m: &mut Model<F>, pool: &[(LinearCombination<F>, Model<F>)], op: u32, rng: &mut dyn RngCore, log: &mut String| {
        let v = vars[(rng.next_u32() as usize) % vars.len()];
        let mut rng = rng;
        let c: F = rf(&mut rng);
        let (pl, pm) = &pool[(rng.next_u32() as usize) % pool.len()];
        log.push_str(&format!(" op{} v{} c{} |pool|{}", op, vn(v), hexf(&c), pm.len()));
        match op {
            0 => { madd(m, vn(v), F::ONE); l + v }
            1 => { madd(m, vn(v), -F::ONE); l - v }
            2 => { madd(m, vn(v), c); l + (c, v) }
            3 => { madd(m, vn(v), -c); l - (c, v) }
            4 => { for (k, x) in pm { madd(m, *k, *x); } l + pl }
            5 => { for (k, x) in pm { madd(m, *k, -*x); } l - pl }
            6 => { for (k, x) in pm { madd(m, *k, c * x); } l + (c, pl) }
            _ => { for (k, x) in pm { madd(m, *k, -(c * x)); } l - (c, pl) }
        }
    };
    r.case(&format!("{} zero", f), |_| {
        same(&LinearCombination::<F>::zero(), &Model::new())?;
        Ok(1)
    });
    for k in 0..r.n(60, 2000) {
        // every ordered pair of operators, then random programs
        r.case(&format!("{} program {}", f, k), |rng| {
            let mut pool: Vec<(LinearCombination<F>, Model<F>)> = vec![(LinearCombination::zero(), Model::new())];
            let mut log = String::new();
            for j in 0..(8 + k % 9) {
                let base = (rng.next_u32() as usize) % pool.len();
                let (mut l, mut m) = pool[base].clone();
                let n = 1 + (rng.next_u32() % 4);
                for s in 0..n {
                    let op = if j == 0 && s == 0 { (k % 8) as u32 } else if j == 0 && s == 1 { (k / 8 % 8) as u32 } else { rng.next_u32() % 8 };
                    l = step(l, &mut m, &pool, op, rng, &mut log);
                    same(&l, &m).map_err(|e| format!("{} after{}", e, log))?;
                }
                // values under random assignments, computed term by term
                let vals: Vec<F> = (0..200).map(|_| F::random(&mut *rng)).collect();
                let got = evt(&terms(&l), &|n| vals[n]);
                let want = m.iter().fold(F::ZERO, |a, (v, c)| a + vals[*v] * c);
                ensure(got == want, || format!("value {} expected {} after{}", hexf(&got), hexf(&want), log))?;
                // operands are unchanged
                for (l2, m2) in &pool {
                    same(l2, m2)?;
                }
                pool.push((l, m));
            }
            Ok(1)
        });
    }
    // x - x, lc - lc, repeated terms
    for (i, v) in vars.iter().enumerate() {
        r.case(&format!("{} cancel {}", f, i), |rng| {
            let c = rf::<F>(rng);
            let l = LinearCombination::<F>::zero() + *v - *v;
            same(&l, &Model::new())?;
            let l = LinearCombination::<F>::zero() + (c, *v) - (c, *v) + *v;
            let mut m = Model::new();
            madd(&mut m, vn(*v), F::ONE);
            same(&l, &m)?;
            let l2 = l.clone() - &l;
            same(&l2, &Model::new())?;
            let l3 = l.clone() + (c, &l) - (c, &l) + &l;
            madd(&mut m, vn(*v), F::ONE);
            same(&l3, &m)?;
            // get/new round trip
            ensure(vn(Variable::new_unchecked(v.get_unchecked())) == vn(*v), || "variable index".into())?;
            Ok(1)
        });
    }
    // long operands
    for n in [1usize, 2, 31, 32, 33, 100, 300] {
        r.case(&format!("{} long {}", f, n), |rng| {
            let mut l = LinearCombination::<F>::zero();
            let mut m = Model::new();
            for i in 0..n {
                let c = rf::<F>(rng);
                let v = Variable::new_unchecked(if i % 3 == 0 { Index::Input(i / 2) } else { Index::Aux(i / 2) });
                l = l + (c, v);
                madd(&mut m, vn(v), c);
            }
            same(&l, &m)?;
            let c = rf::<F>(rng);
            let x = LinearCombination::<F>::zero() + vars[0] + &l - (c, &l) - &l + (c.double(), &l);
            let mut w = Model::new();
            madd(&mut w, vn(vars[0]), F::ONE);
            for (k, y) in &m {
                madd(&mut w, *k, c * y);
            }
            same(&x, &w)?;
            Ok(1)
        });
    }
}
pub fn c01(r: &mut Rep) {
    r.rule = "operator programs over a pool of combinations (variables, coefficients 0, 1, -1, 2, random; empty, cancelling, duplicated operands), compared term by term with an independent map; every case applies at least one operator".into();
    c01_f::<Fp<3>>(r, "F3");
    c01_f::<Fp<13>>(r, "F13");
    c01_f::<Fp<GOLD>>(r, "Gold");
    c01_f::<Bls>(r, "Bls");
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Is(usize),
    Not(usize),
    Const(bool),
}
/// value under an assignment
pub fn bval<F: PrimeField>(b: &Boolean, f: &dyn Fn(usize) -> F) -> F {
    match b {
        Boolean::Is(v) => f(vn(v.get_variable())),
        Boolean::Not(v) => F::ONE - f(vn(v.get_variable())),
        Boolean::Constant(c) => b2f(*c),
    }
}
pub fn raw_bit<F: PrimeField>(cs: &mut RecCS<F>, v: Option<bool>) -> Result<AllocatedBit, SynthesisError> {
    AllocatedBit::alloc(cs.namespace(|| "operand"), v)
}
pub fn kval(k: Kind, base: &[bool]) -> bool {
    match k {
        Kind::Is(i) => base[i],
        Kind::Not(i) => !base[i],
        Kind::Const(b) => b,
    }
}
pub fn mk(k: Kind, bits: &[AllocatedBit]) -> Boolean {
    match k {
        Kind::Is(i) => Boolean::Is(bits[i].clone()),
        Kind::Not(i) => Boolean::Not(bits[i].clone()),
        Kind::Const(b) => Boolean::Constant(b),
    }
}
fn same_bool(b: &Boolean, v: bool, known: bool) -> Result<(), String> {
    let want = if known || matches!(b, Boolean::Constant(_)) { Some(v) } else { None };
    ensure(b.get_value() == want, || format!("reported value {:?}, expected {:?}", b.get_value(), want))
}

/// One boolean gadget on operands drawn from `nb` base bits.
fn bool_gadget<F: PrimeField>(
    r: &mut Rep, name: &str, kinds: &[Kind], nb: usize,
    build: &dyn Fn(&mut RecCS<F>, &[Boolean], &[AllocatedBit]) -> Result<Boolean, SynthesisError>,
    spec: &dyn Fn(&[bool]) -> bool,
) {
    r.case(name, |_| {
        let mut n = 0;
        // setup system (values unknown)
        let mut setup = RecCS::<F>::new(Mode::Setup);
        let sb: Vec<AllocatedBit> = (0..nb).map(|_| raw_bit(&mut setup, None)).collect::<Result<_, _>>().map_err(|e| format!("setup: {:?}", e))?;
        let ops: Vec<Boolean> = kinds.iter().map(|k| mk(*k, &sb)).collect();
        let sout = build(&mut setup, &ops, &sb).map_err(|e| format!("setup error {:?}", e))?;
        ensure(setup.depth == 0, || "namespace left open".into())?;
        for m in 0..(1u32 << nb) {
            let base: Vec<bool> = (0..nb).map(|i| m >> i & 1 == 1).collect();
            let vals: Vec<bool> = kinds.iter().map(|k| kval(*k, &base)).collect();
            let want = spec(&vals);
            let tag = |s: String| format!("operands {:?} = {:?}: {}", kinds, vals, s);
            // honest prover
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let pb: Vec<AllocatedBit> = base.iter().map(|b| raw_bit(&mut cs, Some(*b))).collect::<Result<_, _>>().map_err(|e| format!("{:?}", e))?;
            let ops: Vec<Boolean> = kinds.iter().map(|k| mk(*k, &pb)).collect();
            let out = build(&mut cs, &ops, &pb).map_err(|e| tag(format!("honest prover error {:?}", e)))?;
            if let Some(c) = cs.unsatisfied() {
                return Err(tag(format!("honest prover violates {}", c)));
            }
            same_bool(&out, want, true).map_err(&tag)?;
            let got = bval::<F>(&out, &|x| cs.val(x));
            ensure(got == b2f(want), || tag(format!("allocated value {} for {}", hexf(&got), want)))?;
            let l = out.lc::<F>(RecCS::<F>::one(), F::ONE);
            ensure(cs.eval(&l) == b2f(want), || tag("lc of the result".into()))?;
            ensure(cs.same_shape(&setup), || tag("constraints differ between setup and proving".into()))?;
            // every satisfying assignment of the emitted constraints
            let fixed: Vec<(usize, F)> = pb.iter().zip(&base).map(|(v, b)| (vn(v.get_variable()), b2f(*b))).collect();
            for (sys, o) in [(&cs, &out), (&setup, &sout)] {
                let mut s = Solver::new(sys);
                match s.search(&fixed, &mut |f| {
                    let g = bval::<F>(o, f);
                    ensure(g == b2f(want), || tag(format!("result {} instead of {}", hexf(&g), want)))
                }) {
                    Verdict::Bad(e) => return Err(e),
                    Verdict::Ok { solutions, .. } => {
                        ensure(solutions > 0, || tag("no satisfying assignment".into()))?;
                        n += solutions as u64;
                    }
                }
            }
        }
        // unknown operands are reported, not guessed
        if nb > 0 {
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let pb: Vec<AllocatedBit> = (0..nb).map(|_| {
                let mut s = RecCS::<F>::new(Mode::Setup);
                raw_bit(&mut s, None).unwrap()
            }).collect();
            let ops: Vec<Boolean> = kinds.iter().map(|k| mk(*k, &pb)).collect();
            match build(&mut cs, &ops, &pb) {
                Err(SynthesisError::AssignmentMissing) => {}
                Err(e) => return Err(format!("missing witness reported as {:?}", e)),
                // no value needed: nothing may have been allocated from an unknown value
                Ok(_) => ensure(cs.aux.is_empty(), || "a value was invented for an unknown operand".into())?,
            }
        }
        Ok(n)
    });
}
fn kinds3() -> Vec<Vec<Kind>> {
    use Kind::*;
    // every mix of allocated, negated, constant; repeated variables included
    let one = |i: usize| vec![Is(i), Not(i), Const(false), Const(true)];
    let mut out = vec![];
    for (x, y, z) in [(0, 1, 2), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 0)] {
        for a in one(x) {
            for b in one(y) {
                for c in one(z) {
                    let k = vec![a, b, c];
                    if !out.contains(&k) {
                        out.push(k);
                    }
                }
            }
        }
    }
    out
}
fn kinds2() -> Vec<Vec<Kind>> {
    use Kind::*;
    let one = |i: usize| vec![Is(i), Not(i), Const(false), Const(true)];
    let mut out = vec![];
    for (x, y) in [(0, 1), (0, 0)] {
        for a in one(x) {
            for b in one(y) {
                let k = vec![a, b];
                if !out.contains(&k) {
                    out.push(k);
                }
            }
        }
    }
    out
}
fn nbits(k: &[Kind]) -> usize {
    k.iter().map(|k| match k { Kind::Is(i) | Kind::Not(i) => i + 1, _ => 0 }).max().unwrap_or(0)
}
fn c02_f<F: PrimeField>(r: &mut Rep, f: &str) {
    // allocation
    for v in [false, true] {
        r.case(&format!("{} alloc {}", f, v), |_| {
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let b = AllocatedBit::alloc(&mut cs, Some(v)).map_err(|e| format!("{:?}", e))?;
            ensure(cs.unsatisfied().is_none() && cs.get(b.get_variable()) == b2f(v) && b.get_value() == Some(v), || "honest alloc".into())?;
            let mut n = 0;
            let mut setup = RecCS::<F>::new(Mode::Setup);
            let sb = AllocatedBit::alloc(&mut setup, None).map_err(|e| format!("{:?}", e))?;
            ensure(setup.same_shape(&cs), || "shape".into())?;
            for s in [&cs, &setup] {
                let mut seen = vec![];
                match Solver::new(s).search(&[], &mut |g| {
                    let x = g(vn(sb.get_variable()));
                    seen.push(x);
                    ensure(x == F::ZERO || x == F::ONE, || format!("allocated bit may be {}", hexf(&x)))
                }) {
                    Verdict::Bad(e) => return Err(e),
                    Verdict::Ok { .. } => ensure(seen.len() == 2, || format!("{} satisfying values of a bit", seen.len()))?,
                }
                n += 2;
            }
            let mut cs = RecCS::<F>::new(Mode::Prove);
            ensure(matches!(AllocatedBit::alloc(&mut cs, None), Err(SynthesisError::AssignmentMissing)), || "missing value".into())?;
            Ok(n)
        });
    }
    for m in [false, true] {
        for v in [false, true] {
            r.case(&format!("{} alloc_conditionally {} {}", f, m, v), |_| {
                let mut cs = RecCS::<F>::new(Mode::Prove);
                let mb = AllocatedBit::alloc(&mut cs, Some(m)).map_err(|e| format!("{:?}", e))?;
                let b = AllocatedBit::alloc_conditionally(&mut cs, Some(v), &mb).map_err(|e| format!("{:?}", e))?;
                ensure(cs.get(b.get_variable()) == b2f(v) && b.get_value() == Some(v), || "honest value".into())?;
                ensure(cs.unsatisfied().is_some() == (m && v), || format!("honest satisfiability for condition {} value {}", m, v))?;
                let mut setup = RecCS::<F>::new(Mode::Setup);
                let sm = AllocatedBit::alloc(&mut setup, None).map_err(|e| format!("{:?}", e))?;
                let sb = AllocatedBit::alloc_conditionally(&mut setup, None, &sm).map_err(|e| format!("{:?}", e))?;
                ensure(setup.same_shape(&cs), || "shape".into())?;
                let mut n = 0;
                for s in [&cs, &setup] {
                    let mut seen = 0;
                    match Solver::new(s).search(&[(vn(sm.get_variable()), b2f(m))], &mut |g| {
                        let x = g(vn(sb.get_variable()));
                        seen += 1;
                        ensure(x == F::ZERO || (x == F::ONE && !m), || format!("conditional bit may be {} under condition {}", hexf(&x), m))
                    }) {
                        Verdict::Bad(e) => return Err(e),
                        Verdict::Ok { .. } => ensure(seen == if m { 1 } else { 2 }, || format!("{} satisfying values", seen))?,
                    }
                    n += seen;
                }
                let mut cs = RecCS::<F>::new(Mode::Prove);
                ensure(matches!(AllocatedBit::alloc_conditionally(&mut cs, None, &mb), Err(SynthesisError::AssignmentMissing)), || "missing value".into())?;
                Ok(n)
            });
        }
    }
    // two-operand AllocatedBit gadgets
    type AB<F> = fn(&mut RecCS<F>, &AllocatedBit, &AllocatedBit) -> Result<AllocatedBit, SynthesisError>;
    let ab: Vec<(&str, AB<F>, fn(bool, bool) -> bool)> = vec![
        ("bit xor", |cs, a, b| AllocatedBit::xor(cs, a, b), |a, b| a ^ b),
        ("bit and", |cs, a, b| AllocatedBit::and(cs, a, b), |a, b| a & b),
        ("bit and_not", |cs, a, b| AllocatedBit::and_not(cs, a, b), |a, b| a & !b),
        ("bit nor", |cs, a, b| AllocatedBit::nor(cs, a, b), |a, b| !a & !b),
    ];
    for (n, g, s) in &ab {
        for k in [[Kind::Is(0), Kind::Is(1)], [Kind::Is(0), Kind::Is(0)], [Kind::Is(1), Kind::Is(0)]] {
            let nb = nbits(&k);
            bool_gadget::<F>(r, &format!("{} {} {:?}", f, n, k), &k, nb, &|cs, _, bits| {
                let pick = |k: Kind| match k { Kind::Is(i) => &bits[i], _ => unreachable!() };
                Ok(Boolean::from(g(cs, pick(k[0]), pick(k[1]))?))
            }, &|v| s(v[0], v[1]));
        }
    }
    for k in kinds2() {
        let nb = nbits(&k);
        bool_gadget::<F>(r, &format!("{} xor {:?}", f, k), &k, nb, &|cs, o, _| Boolean::xor(cs, &o[0], &o[1]), &|v| v[0] ^ v[1]);
        bool_gadget::<F>(r, &format!("{} and {:?}", f, k), &k, nb, &|cs, o, _| Boolean::and(cs, &o[0], &o[1]), &|v| v[0] & v[1]);
    }
    for k in kinds2() {
        let k = vec![k[0]];
        let nb = nbits(&k);
        bool_gadget::<F>(r, &format!("{} not {:?}", f, k), &k, nb, &|_, o, _| Ok(o[0].not()), &|v| !v[0]);
        r.case(&format!("{} is_constant/lc {:?}", f, k), |rng| {
            for v in [false, true] {
                let mut cs = RecCS::<F>::new(Mode::Prove);
                let bits = vec![raw_bit(&mut cs, Some(v)).unwrap(), raw_bit(&mut cs, Some(!v)).unwrap()];
                let b = mk(k[0], &bits);
                ensure(b.is_constant() == matches!(k[0], Kind::Const(_)), || "is_constant".into())?;
                let c: F = rf(rng);
                let got = cs.eval(&b.lc(RecCS::<F>::one(), c));
                let want = c * b2f::<F>(kval(k[0], &[v, !v]));
                ensure(got == want, || format!("lc with coefficient {} is {}", hexf(&c), hexf(&got)))?;
            }
            ensure(matches!(Boolean::constant(true), Boolean::Constant(true)) && matches!(Boolean::constant(false), Boolean::Constant(false)), || "constant".into())?;
            Ok(1)
        });
    }
    for k in kinds3() {
        let nb = nbits(&k);
        bool_gadget::<F>(r, &format!("{} ch {:?}", f, k), &k, nb, &|cs, o, _| Boolean::sha256_ch(cs, &o[0], &o[1], &o[2]), &|v| (v[0] & v[1]) ^ (!v[0] & v[2]));
        bool_gadget::<F>(r, &format!("{} maj {:?}", f, k), &k, nb, &|cs, o, _| Boolean::sha256_maj(cs, &o[0], &o[1], &o[2]), &|v| (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    }
    // equality
    for k in kinds2() {
        let nb = nbits(&k);
        r.case(&format!("{} enforce_equal {:?}", f, k), |_| {
            let mut n = 0;
            let consts = matches!(k[0], Kind::Const(_)) && matches!(k[1], Kind::Const(_));
            for m in 0..(1u32 << nb) {
                let base: Vec<bool> = (0..nb).map(|i| m >> i & 1 == 1).collect();
                let (x, y) = (kval(k[0], &base), kval(k[1], &base));
                for mode in [Mode::Prove, Mode::Setup] {
                    let mut cs = RecCS::<F>::new(mode);
                    let bits: Vec<AllocatedBit> = base.iter().map(|b| raw_bit(&mut cs, if mode == Mode::Prove { Some(*b) } else { None }).unwrap()).collect();
                    let res = Boolean::enforce_equal(&mut cs, &mk(k[0], &bits), &mk(k[1], &bits));
                    if consts && x != y {
                        ensure(matches!(res, Err(SynthesisError::Unsatisfiable)), || format!("unequal constants: {:?}", res))?;
                        n += 1;
                        continue;
                    }
                    ensure(res.is_ok(), || format!("{:?}", res))?;
                    if mode == Mode::Prove {
                        ensure(cs.unsatisfied().is_none() == (x == y), || format!("honest satisfiability for {} {}", x, y))?;
                    }
                    let fixed: Vec<(usize, F)> = bits.iter().zip(&base).map(|(v, b)| (vn(v.get_variable()), b2f(*b))).collect();
                    match Solver::new(&cs).search(&fixed, &mut |_| Ok(())) {
                        Verdict::Ok { solutions, .. } => ensure((solutions > 0) == (x == y), || format!("equality of {} and {} has {} satisfying assignments", x, y, solutions))?,
                        Verdict::Bad(e) => return Err(e),
                    }
                    n += 1;
                }
            }
            Ok(n)
        });
    }
}
pub fn c02(r: &mut Rep) {
    r.rule = "every mix of allocated, negated and constant operands (repeated variables included), every operand value, over six fields: honest prover, same constraints with unknown values, and all satisfying assignments of the recorded constraints enumerated; a case is non-trivial when at least one satisfying assignment was examined".into();
    c02_f::<Fp<3>>(r, "F3");
    c02_f::<Fp<5>>(r, "F5");
    c02_f::<Fp<13>>(r, "F13");
    c02_f::<Fp<GOLD>>(r, "Gold");
    c02_f::<Bls>(r, "Bls");
}

// ---------------------------------------------------------------- C03
pub fn num<F: PrimeField>(cs: &mut RecCS<F>, v: Option<F>) -> AllocatedNum<F> {
    AllocatedNum::alloc(cs.namespace(|| "num operand"), || v.ok_or(SynthesisError::AssignmentMissing)).unwrap()
}
pub fn samples<F: PrimeField>(rng: &mut impl RngCore, n: usize) -> Vec<F> {
    let mut v = vec![F::ZERO, F::ONE, -F::ONE, F::from(2), F::TWO_INV];
    if F::NUM_BITS <= 4 {
        return (0..(1u64 << F::NUM_BITS)).map(F::from).filter({
            let mut seen: Vec<F> = vec![];
            move |x| { let new = !seen.contains(x); seen.push(*x); new }
        }).collect();
    }
    for _ in 0..n {
        v.push(F::random(&mut *rng));
    }
    v
}
/// a gadget on allocated numbers; `spec` gives the expected outputs
fn num_gadget<F: PrimeField>(
    r: &mut Rep, name: &str, nn: usize, nb: usize,
    build: &dyn Fn(&mut RecCS<F>, &[AllocatedNum<F>], &[AllocatedBit]) -> Result<Vec<AllocatedNum<F>>, SynthesisError>,
    spec: &dyn Fn(&[F], &[bool]) -> Vec<F>,
) {
    r.case(name, |rng| {
        let mut cnt = 0;
        let s = samples::<F>(rng, 3);
        let mut setup = RecCS::<F>::new(Mode::Setup);
        let sn: Vec<_> = (0..nn).map(|_| num(&mut setup, None)).collect();
        let sb: Vec<_> = (0..nb).map(|_| raw_bit(&mut setup, None).unwrap()).collect();
        let so = build(&mut setup, &sn, &sb).map_err(|e| format!("setup {:?}", e))?;
        for o in &so {
            ensure(o.get_value().is_none(), || "value known at setup".into())?;
        }
        let mut combos: Vec<Vec<F>> = vec![vec![]];
        for _ in 0..nn {
            combos = combos.into_iter().flat_map(|c| s.iter().map(move |x| { let mut c = c.clone(); c.push(*x); c })).collect();
        }
        for c in combos {
            for m in 0..(1u32 << nb) {
                let bits: Vec<bool> = (0..nb).map(|i| m >> i & 1 == 1).collect();
                let tag = |e: String| format!("operands {:?} {:?}: {}", c.iter().map(hexf).collect::<Vec<_>>(), bits, e);
                let want = spec(&c, &bits);
                let mut cs = RecCS::<F>::new(Mode::Prove);
                let pn: Vec<_> = c.iter().map(|x| num(&mut cs, Some(*x))).collect();
                let pb: Vec<_> = bits.iter().map(|b| raw_bit(&mut cs, Some(*b)).unwrap()).collect();
                for (n, x) in pn.iter().zip(&c) {
                    ensure(n.get_value() == Some(*x) && cs.get(n.get_variable()) == *x, || tag("allocation".into()))?;
                }
                let out = build(&mut cs, &pn, &pb).map_err(|e| tag(format!("honest prover error {:?}", e)))?;
                ensure(cs.unsatisfied().is_none(), || tag(format!("honest prover violates {:?}", cs.unsatisfied())))?;
                ensure(out.len() == want.len(), || tag("outputs".into()))?;
                for (o, w) in out.iter().zip(&want) {
                    ensure(o.get_value() == Some(*w), || tag("reported value".into()))?;
                    ensure(cs.get(o.get_variable()) == *w, || tag("allocated value".into()))?;
                }
                ensure(cs.same_shape(&setup), || tag("constraints differ between setup and proving".into()))?;
                let mut fixed: Vec<(usize, F)> = pn.iter().zip(&c).map(|(n, x)| (vn(n.get_variable()), *x)).collect();
                fixed.extend(pb.iter().zip(&bits).map(|(n, x)| (vn(n.get_variable()), b2f(*x))));
                match Solver::new(&setup).search(&fixed, &mut |g| {
                    for (o, w) in so.iter().zip(&want) {
                        let x = g(vn(o.get_variable()));
                        ensure(x == *w, || tag(format!("result {} instead of {}", hexf(&x), hexf(w))))?;
                    }
                    Ok(())
                }) {
                    Verdict::Bad(e) => return Err(e),
                    Verdict::Ok { solutions, .. } => {
                        ensure(solutions > 0, || tag("no satisfying assignment".into()))?;
                        cnt += solutions as u64;
                    }
                }
            }
        }
        // missing witness
        let mut cs = RecCS::<F>::new(Mode::Prove);
        match build(&mut cs, &sn, &sb) {
            Err(SynthesisError::AssignmentMissing) => {}
            x => return Err(format!("missing witness: {:?}", x.err())),
        }
        Ok(cnt)
    });
}
fn c03_f<F: PrimeField>(r: &mut Rep, f: &str) {
    num_gadget::<F>(r, &format!("{} mul", f), 2, 0, &|cs, n, _| Ok(vec![n[0].mul(cs, &n[1])?]), &|c, _| vec![c[0] * c[1]]);
    num_gadget::<F>(r, &format!("{} mul self", f), 1, 0, &|cs, n, _| Ok(vec![n[0].mul(cs, &n[0])?]), &|c, _| vec![c[0] * c[0]]);
    num_gadget::<F>(r, &format!("{} square", f), 1, 0, &|cs, n, _| Ok(vec![n[0].square(cs)?]), &|c, _| vec![c[0] * c[0]]);
    for (k, kind) in [Kind::Is(0), Kind::Not(0), Kind::Const(false), Kind::Const(true)].iter().enumerate() {
        let kind = *kind;
        num_gadget::<F>(r, &format!("{} conditionally_reverse {:?}", f, kind), 2, 1, &|cs, n, b| {
            let (x, y) = AllocatedNum::conditionally_reverse(cs, &n[0], &n[1], &mk(kind, b))?;
            Ok(vec![x, y])
        }, &|c, b| if kval(kind, b) { vec![c[1], c[0]] } else { vec![c[0], c[1]] });
        if k == 0 {
            num_gadget::<F>(r, &format!("{} conditionally_reverse same", f), 1, 1, &|cs, n, b| {
                let (x, y) = AllocatedNum::conditionally_reverse(cs, &n[0], &n[0], &mk(kind, b))?;
                Ok(vec![x, y])
            }, &|c, _| vec![c[0], c[0]]);
        }
    }
    r.case(&format!("{} alloc", f), |rng| {
        for x in samples::<F>(rng, 4) {
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let n = AllocatedNum::alloc(&mut cs, || Ok(x)).map_err(|e| format!("{:?}", e))?;
            let n2 = n.clone();
            ensure(n.get_value() == Some(x) && cs.get(n.get_variable()) == x && n2.get_value() == Some(x) && vn(n2.get_variable()) == vn(n.get_variable()), || "alloc".into())?;
            ensure(matches!(AllocatedNum::alloc(&mut cs, || Err::<F, _>(SynthesisError::DivisionByZero)), Err(SynthesisError::DivisionByZero)), || "error passed on".into())?;
        }
        Ok(1)
    });
    r.case(&format!("{} assert_nonzero", f), |rng| {
        let mut n = 0;
        for x in samples::<F>(rng, 4) {
            let z = x.is_zero_vartime();
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let a = num(&mut cs, Some(x));
            match a.assert_nonzero(&mut cs) {
                Ok(()) => ensure(!z && cs.unsatisfied().is_none(), || format!("assert_nonzero({}) accepted or unsatisfied", hexf(&x)))?,
                Err(SynthesisError::DivisionByZero) => ensure(z, || "error for a nonzero value".into())?,
                Err(e) => return Err(format!("{:?}", e)),
            }
            let mut s = RecCS::<F>::new(Mode::Setup);
            let a = num(&mut s, None);
            a.assert_nonzero(&mut s).map_err(|e| format!("{:?}", e))?;
            ensure(z || s.same_shape(&cs), || "shape".into())?;
            match Solver::new(&s).search(&[(vn(a.get_variable()), x)], &mut |_| Ok(())) {
                Verdict::Ok { solutions, .. } => ensure((solutions > 0) == !z, || format!("assert_nonzero({}) has {} satisfying assignments", hexf(&x), solutions))?,
                Verdict::Bad(e) => return Err(e),
            }
            n += 1;
        }
        let mut s = RecCS::<F>::new(Mode::Setup);
        let a = num(&mut s, None);
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(matches!(a.assert_nonzero(&mut cs), Err(SynthesisError::AssignmentMissing)), || "missing witness".into())?;
        Ok(n)
    });
    r.case(&format!("{} inputize", f), |rng| {
        let mut n = 0;
        for x in samples::<F>(rng, 4) {
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let a = num(&mut cs, Some(x));
            a.inputize(&mut cs).map_err(|e| format!("{:?}", e))?;
            ensure(cs.inputs.len() == 2 && cs.inputs[1] == Some(x) && cs.unsatisfied().is_none(), || format!("inputize({})", hexf(&x)))?;
            let mut s = RecCS::<F>::new(Mode::Setup);
            let a = num(&mut s, None);
            a.inputize(&mut s).map_err(|e| format!("{:?}", e))?;
            ensure(s.same_shape(&cs), || "shape".into())?;
            match Solver::new(&s).search(&[(vn(a.get_variable()), x)], &mut |g| ensure(g(2) == x, || format!("input {} for number {}", hexf(&g(2)), hexf(&x)))) {
                Verdict::Ok { solutions, .. } => n += solutions as u64,
                Verdict::Bad(e) => return Err(e),
            }
        }
        let mut s = RecCS::<F>::new(Mode::Setup);
        let a = num(&mut s, None);
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(matches!(a.inputize(&mut cs), Err(SynthesisError::AssignmentMissing)), || "missing witness".into())?;
        Ok(n)
    });
    for k in 0..r.n(12, 100) {
        r.case(&format!("{} Num {}", f, k), |rng| {
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let start: F = rf(rng);
            let from_alloc = rng.next_u32() % 2 == 0;
            let first = num(&mut cs, Some(start));
            let (mut x, mut want) = if from_alloc { (Num::from(first), start) } else { (Num::zero(), F::ZERO) };
            ensure(x.get_value() == Some(want), || "start value".into())?;
            // the same number built where values are unknown (all of them, or some)
            let (mut sk, mut su) = (RecCS::<F>::new(Mode::Prove), RecCS::<F>::new(Mode::Setup));
            let setup = rng.next_u32() % 2 == 0;
            let (nk, nu) = (num(&mut sk, Some(start)), num(&mut su, None));
            let mut u = if from_alloc { Num::from(if setup { nu } else { nk }) } else { Num::zero() };
            let mut lost = setup && from_alloc;
            for j in 0..(rng.next_u32() % 12) {
                let v = rng.next_u32() % 2 == 1;
                let bit = raw_bit(&mut cs, Some(v)).unwrap();
                let kind = [Kind::Is(0), Kind::Not(0), Kind::Const(false), Kind::Const(true)][(rng.next_u32() % 4) as usize];
                let c: F = rf(rng);
                let b = mk(kind, &[bit]);
                x = x.add_bool_with_coeff(RecCS::<F>::one(), &b, c);
                if kval(kind, &[v]) {
                    want += c;
                }
                ensure(x.get_value() == Some(want), || format!("value after {} bits", j + 1))?;
                let m: F = rf(rng);
                let (bk, bu) = (raw_bit(&mut sk, Some(v)).unwrap(), raw_bit(&mut su, None).unwrap());
                let ub = mk(kind, &[if setup || rng.next_u32() % 4 == 0 { bu } else { bk }]);
                lost |= ub.get_value().is_none();
                u = u.add_bool_with_coeff(RecCS::<F>::one(), &ub, c);
                ensure(u.get_value().is_none() == lost && (lost || u.get_value() == Some(want)), || format!("value with unknown parts after {} bits", j + 1))?;
                ensure(cs.eval(&u.lc(m)) == m * want, || format!("combination built with unknown values differs after {} bits", j + 1))?;
                let got = cs.eval(&x.lc(m));
                ensure(got == m * want, || format!("lc({}) is {} for value {}", hexf(&m), hexf(&got), hexf(&want)))?;
            }
            // unknown stays unknown, with the same combination
            let sb = { let mut s = RecCS::<F>::new(Mode::Setup); raw_bit(&mut s, None).unwrap() };
            let y = x.add_bool_with_coeff(RecCS::<F>::one(), &Boolean::Is(sb), F::ONE);
            ensure(y.get_value().is_none(), || "unknown bit gives a known value".into())?;
            let z = y.add_bool_with_coeff(RecCS::<F>::one(), &Boolean::Constant(true), F::ONE);
            ensure(z.get_value().is_none(), || "unknown value became known".into())?;
            Ok(1)
        });
    }
}
pub fn c03(r: &mut Rep) {
    r.rule = "operands exhaustive over F3-F13, special and random values over the large fields; honest prover, unknown-value circuit, and satisfying assignments enumerated from the recorded constraints; non-trivial when one was examined".into();
    all_fields!(c03_f, r);
}

// ---------------------------------------------------------------- C04
fn le_bits_of<F: PrimeField>(x: &F) -> Vec<bool> {
    let r = x.to_repr();
    (0..F::NUM_BITS as usize).map(|i| r.as_ref()[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn wsum<F: PrimeField>(bits: &[F]) -> F {
    let mut c = F::ONE;
    let mut s = F::ZERO;
    for b in bits {
        s += *b * c;
        c = c.double();
    }
    s
}
fn c04_f<F: PrimeFieldBits>(r: &mut Rep, f: &str, vals: Vec<F>) {
    let nb = F::NUM_BITS as usize;
    for strict in [true, false] {
        let name = if strict { "to_bits_le_strict" } else { "to_bits_le" };
        let dec = move |n: &AllocatedNum<F>, cs: &mut RecCS<F>| if strict { n.to_bits_le_strict(cs) } else { n.to_bits_le(cs) };
        for x in vals.iter() {
            r.case(&format!("{} {} {}", f, name, hexf(x)), |rng| {
                let mut cs = RecCS::<F>::new(Mode::Prove);
                let n = num(&mut cs, Some(*x));
                let bits = dec(&n, &mut cs).map_err(|e| format!("{:?}", e))?;
                ensure(bits.len() == nb, || format!("{} bits for a {}-bit modulus", bits.len(), nb))?;
                ensure(cs.unsatisfied().is_none(), || format!("honest prover violates {:?}", cs.unsatisfied()))?;
                let want = le_bits_of(x);
                for (i, b) in bits.iter().enumerate() {
                    ensure(b.get_value() == Some(want[i]), || format!("bit {} reported {:?}, expected {}", i, b.get_value(), want[i]))?;
                    ensure(bval::<F>(b, &|v| cs.val(v)) == b2f(want[i]), || format!("bit {} allocated", i))?;
                }
                let mut s = RecCS::<F>::new(Mode::Setup);
                let sn = num(&mut s, None);
                let sbits = dec(&sn, &mut s).map_err(|e| format!("{:?}", e))?;
                ensure(sbits.len() == nb && s.same_shape(&cs), || "setup circuit differs".into())?;
                let mut cnt = 0;
                let xv = vn(sn.get_variable());
                if nb <= 10 {
                    // all assignments for this number
                    let mut sv = Solver::new(&s);
                    sv.budget = 20000;
                    match sv.search(&[(xv, *x)], &mut |g| {
                        let b: Vec<F> = sbits.iter().map(|b| bval(b, g)).collect();
                        ensure(b.iter().all(|v| *v == F::ZERO || *v == F::ONE), || "a bit is not boolean".into())?;
                        ensure(wsum(&b) == *x, || "weighted sum differs from the number".into())?;
                        if strict {
                            for i in 0..nb {
                                ensure(b[i] == b2f(want[i]), || format!("second decomposition {:?}", b.iter().map(hexf).collect::<Vec<_>>()))?;
                            }
                        }
                        Ok(())
                    }) {
                        Verdict::Bad(e) => return Err(e),
                        Verdict::Ok { solutions, complete } => {
                            ensure(complete && solutions > 0, || "enumeration incomplete".into())?;
                            cnt += solutions as u64;
                        }
                    }
                } else {
                    // forged bit strings: the canonical one, x + modulus when it fits, and single-bit changes
                    let mut tries: Vec<Vec<bool>> = vec![want.clone()];
                    let m = le_bits_of(&(-F::ONE));
                    let mut carry = true; // modulus = (p-1) + 1
                    let mut sum = vec![];
                    for i in 0..nb {
                        let t = want[i] as u8 + m[i] as u8 + carry as u8;
                        sum.push(t & 1 == 1);
                        carry = t > 1;
                    }
                    if !carry {
                        tries.push(sum);
                    }
                    for _ in 0..3 {
                        let mut t = want.clone();
                        let k = rng.next_u32() as usize % nb;
                        t[k] = !t[k];
                        tries.push(t);
                    }
                    for (ti, t) in tries.iter().enumerate() {
                        let mut fixed = vec![(xv, *x)];
                        for (b, v) in sbits.iter().zip(t) {
                            let var = match b { Boolean::Is(a) | Boolean::Not(a) => vn(a.get_variable()), _ => return Err("constant bit".into()) };
                            let v = if matches!(b, Boolean::Not(_)) { !*v } else { *v };
                            fixed.push((var, b2f(v)));
                        }
                        let bf: Vec<F> = t.iter().map(|b| b2f(*b)).collect();
                        let may = if strict { ti == 0 } else { wsum(&bf) == *x };
                        match Solver::new(&s).search(&fixed, &mut |_| ensure(may, || format!("non-canonical decomposition {} accepted", ti))) {
                            Verdict::Bad(e) => return Err(e),
                            Verdict::Ok { solutions, .. } => {
                                ensure(ti != 0 || solutions > 0, || "canonical decomposition rejected".into())?;
                                cnt += 1;
                            }
                        }
                    }
                    // non-boolean bits: free search from the number with all but one bit fixed
                    let k = rng.next_u32() as usize % nb;
                    let mut fixed = vec![(xv, *x)];
                    for (i, b) in sbits.iter().enumerate() {
                        if i != k {
                            if let Boolean::Is(a) = b { fixed.push((vn(a.get_variable()), b2f(want[i]))); }
                        }
                    }
                    match Solver::new(&s).search(&fixed, &mut |g| ensure(bval::<F>(&sbits[k], g) == b2f(want[k]), || format!("bit {} may differ", k))) {
                        Verdict::Bad(e) => return Err(e),
                        Verdict::Ok { .. } => cnt += 1,
                    }
                }
                Ok(cnt)
            });
        }
        r.case(&format!("{} {} missing", f, name), |_| {
            let mut s = RecCS::<F>::new(Mode::Setup);
            let n = num(&mut s, None);
            let mut cs = RecCS::<F>::new(Mode::Prove);
            match dec(&n, &mut cs) {
                Err(SynthesisError::AssignmentMissing) => Ok(1),
                x => Err(format!("missing witness: {:?}", x.err())),
            }
        });
    }
    // decomposition of foreign values: field elements and u64
    for x in vals.iter().take(40) {
        r.case(&format!("{} field_into {}", f, hexf(x)), |_| {
            let want = le_bits_of(x);
            let mut cs = RecCS::<Bls>::new(Mode::Prove);
            let a = field_into_boolean_vec_le::<Bls, _, F>(&mut cs, Some(*x)).map_err(|e| format!("{:?}", e))?;
            let b = field_into_allocated_bits_le::<Bls, _, F>(&mut cs, Some(*x)).map_err(|e| format!("{:?}", e))?;
            ensure(a.len() == nb && b.len() == nb && cs.aux.len() == 2 * nb && cs.unsatisfied().is_none(), || "sizes".into())?;
            for i in 0..nb {
                ensure(a[i].get_value() == Some(want[i]) && b[i].get_value() == Some(want[i]), || format!("bit {}", i))?;
                ensure(bval::<Bls>(&a[i], &|v| cs.val(v)) == b2f(want[i]) && cs.get(b[i].get_variable()) == b2f(want[i]), || format!("allocated bit {}", i))?;
            }
            let mut s = RecCS::<Bls>::new(Mode::Setup);
            field_into_boolean_vec_le::<Bls, _, F>(&mut s, None).map_err(|e| format!("{:?}", e))?;
            field_into_allocated_bits_le::<Bls, _, F>(&mut s, None).map_err(|e| format!("{:?}", e))?;
            ensure(s.same_shape(&cs), || "setup circuit differs".into())?;
            Ok(1)
        });
    }
}
fn c04_u64<F: PrimeField>(r: &mut Rep, f: &str) {
    for k in 0..r.n(90, 400) {
        r.case(&format!("{} u64 {}", f, k), |rng| {
            let x = match k {
                0 => 0,
                1 => u64::MAX,
                k if k < 66 => 1u64 << (k - 2),
                _ => rng.next_u64(),
            };
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let b = u64_into_boolean_vec_le(&mut cs, Some(x)).map_err(|e| format!("{:?}", e))?;
            ensure(b.len() == 64 && cs.aux.len() == 64 && cs.unsatisfied().is_none(), || "size".into())?;
            for i in 0..64 {
                let w = x >> i & 1 == 1;
                ensure(b[i].get_value() == Some(w) && bval::<F>(&b[i], &|v| cs.val(v)) == b2f(w), || format!("bit {} of {:x}", i, x))?;
            }
            let mut s = RecCS::<F>::new(Mode::Setup);
            let sb = u64_into_boolean_vec_le(&mut s, None).map_err(|e| format!("{:?}", e))?;
            ensure(sb.len() == 64 && s.same_shape(&cs), || "setup".into())?;
            // each bit constrained to be boolean
            for i in 0..64 {
                let fixed: Vec<(usize, F)> = (0..64).filter(|j| *j != i).map(|j| (2 * j + 1, F::ZERO)).collect();
                let mut c = 0;
                match Solver::new(&s).search(&fixed, &mut |g| { c += 1; let v = bval::<F>(&sb[i], g); ensure(v == F::ZERO || v == F::ONE, || format!("bit {} may be {}", i, hexf(&v))) }) {
                    Verdict::Bad(e) => return Err(e),
                    Verdict::Ok { .. } => ensure(c == 2, || format!("bit {}", i))?,
                }
                if k > 2 { break; }
            }
            Ok(1)
        });
    }
    r.case(&format!("{} u64 missing", f), |_| {
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(matches!(u64_into_boolean_vec_le(&mut cs, None), Err(SynthesisError::AssignmentMissing)), || "missing".into())?;
        Ok(1)
    });
}
fn all<const P: u64>() -> Vec<Fp<P>> {
    (0..P).map(Fp).collect()
}
fn few<F: PrimeField>(n: usize, seed: u64) -> Vec<F> {
    let mut v = vec![F::ZERO, F::ONE, -F::ONE, F::from(2), -F::from(2), F::TWO_INV, F::from(1 << 20), F::ROOT_OF_UNITY];
    let mut x = F::from(seed.wrapping_mul(0x9e3779b97f4a7c15)) + F::MULTIPLICATIVE_GENERATOR;
    for i in 0..n {
        x = x.square() + F::from(i as u64 + 3);
        v.push(x);
    }
    // small numbers: x + modulus may fit in NUM_BITS
    for i in 3..12u64 {
        v.push(F::from(i));
        v.push(-F::from(i));
    }
    v
}
pub fn c04(r: &mut Rep) {
    r.rule = "every element of the fields of order 3..61 and several 7-9 bit primes (all satisfying assignments enumerated), special and random elements of the 64-bit and 255-bit fields (canonical, shifted-by-modulus and single-bit forged decompositions); u64 values at powers of two, extremes and random".into();
    macro_rules! small { ($($p:literal),*) => { $( c04_f::<Fp<$p>>(r, concat!("F", $p), all::<$p>()); )* } }
    small!(3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61);
    if r.thorough {
        small!(67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 149, 191, 193, 239, 251, 257, 383, 487, 499, 503, 509);
    } else {
        small!(103, 127, 131);
    }
    let s = r.seed;
    let n = r.n(12, 60);
    c04_f::<Fp<GOLD>>(r, "Gold", few(n, s));
    c04_f::<Bls>(r, "Bls", few(n, s));
    c04_u64::<Fp<13>>(r, "F13");
    c04_u64::<Bls>(r, "Bls");
}

// ---------------------------------------------------------------- C09
fn c09_f<F: PrimeField>(r: &mut Rep, f: &str) {
    use Kind::*;
    let one = |i: usize| vec![Is(i), Not(i), Const(false), Const(true)];
    let mut kinds = vec![];
    for a in one(0) { for b in one(1) { for c in one(2) { kinds.push([a, b, c]); } } }
    kinds.extend([[Is(0), Is(0), Is(1)], [Is(0), Not(0), Is(1)], [Is(1), Is(0), Is(0)], [Is(0), Is(1), Not(0)], [Is(0), Is(0), Is(0)]]);
    for k in kinds {
        for t in 0..r.n(3, 20) {
            for signed in [false, true] {
                r.case(&format!("{} lookup signed={} {:?} table {}", f, signed, k, t), |rng| {
                    let n = if signed { 4 } else { 8 };
                    let table: Vec<(F, F)> = (0..n).map(|i| match t {
                        0 => (F::random(&mut *rng), F::random(&mut *rng)),
                        1 => (F::from(i as u64 + 1), F::from(100 + 7 * i as u64)),
                        _ => (rf(rng), rf(rng)),
                    }).collect();
                    let nb = nbits(&k);
                    let want = |v: &[bool]| -> (F, F) {
                        if signed {
                            let e = table[v[0] as usize + 2 * v[1] as usize];
                            (e.0, if v[2] { -e.1 } else { e.1 })
                        } else {
                            table[v[0] as usize + 2 * v[1] as usize + 4 * v[2] as usize]
                        }
                    };
                    // outputs as combinations
                    let build = |cs: &mut RecCS<F>, b: &[Boolean]| -> Result<(LinearCombination<F>, LinearCombination<F>, Option<F>, Option<F>), SynthesisError> {
                        if signed {
                            let (x, y) = lookup3_xy_with_conditional_negation(cs, b, &table)?;
                            Ok((x.lc(F::ONE), y.lc(F::ONE), x.get_value(), y.get_value()))
                        } else {
                            let (x, y) = lookup3_xy(cs, b, &table)?;
                            Ok((LinearCombination::zero() + x.get_variable(), LinearCombination::zero() + y.get_variable(), x.get_value(), y.get_value()))
                        }
                    };
                    let mut s = RecCS::<F>::new(Mode::Setup);
                    let sb: Vec<_> = (0..nb).map(|_| raw_bit(&mut s, None).unwrap()).collect();
                    let ops: Vec<Boolean> = k.iter().map(|k| mk(*k, &sb)).collect();
                    let (sx, sy, _, _) = build(&mut s, &ops).map_err(|e| format!("setup {:?}", e))?;
                    let (sx, sy) = (terms(&sx), terms(&sy));
                    let mut cnt = 0;
                    for m in 0..(1u32 << nb) {
                        let base: Vec<bool> = (0..nb).map(|i| m >> i & 1 == 1).collect();
                        let v: Vec<bool> = k.iter().map(|k| kval(*k, &base)).collect();
                        let (wx, wy) = want(&v);
                        let tag = |e: String| format!("bits {:?} table {:?}: {}", v, table.iter().map(|(a, b)| (hexf(a), hexf(b))).collect::<Vec<_>>(), e);
                        let mut cs = RecCS::<F>::new(Mode::Prove);
                        let pb: Vec<_> = base.iter().map(|b| raw_bit(&mut cs, Some(*b)).unwrap()).collect();
                        let ops: Vec<Boolean> = k.iter().map(|k| mk(*k, &pb)).collect();
                        let (x, y, vx, vy) = build(&mut cs, &ops).map_err(|e| tag(format!("{:?}", e)))?;
                        ensure(vx == Some(wx) && vy == Some(wy), || tag(format!("reported value {:?} {:?}", vx.map(|v| hexf(&v)), vy.map(|v| hexf(&v)))))?;
                        ensure(cs.eval(&x) == wx && cs.eval(&y) == wy, || tag("value under the honest assignment".into()))?;
                        ensure(cs.unsatisfied().is_none(), || tag("honest prover unsatisfied".into()))?;
                        ensure(s.same_shape(&cs), || tag("setup circuit differs".into()))?;
                        let fixed: Vec<(usize, F)> = pb.iter().zip(&base).map(|(v, b)| (vn(v.get_variable()), b2f(*b))).collect();
                        match Solver::new(&s).search(&fixed, &mut |g| {
                            let (gx, gy) = (evt(&sx, g), evt(&sy, g));
                            ensure(gx == wx && gy == wy, || tag(format!("result ({}, {}) instead of ({}, {})", hexf(&gx), hexf(&gy), hexf(&wx), hexf(&wy))))
                        }) {
                            Verdict::Bad(e) => return Err(e),
                            Verdict::Ok { solutions, .. } => {
                                ensure(solutions > 0, || tag("no satisfying assignment".into()))?;
                                cnt += solutions as u64;
                            }
                        }
                    }
                    if nb > 0 {
                        let mut cs = RecCS::<F>::new(Mode::Prove);
                        if k.iter().any(|k| !matches!(k, Const(_))) {
                            ensure(matches!(build(&mut cs, &ops), Err(SynthesisError::AssignmentMissing)), || "missing witness".into())?;
                        }
                    }
                    Ok(cnt)
                });
            }
        }
    }
}
pub fn c09(r: &mut Rep) {
    r.rule = "every mix of bit kinds and values, random and special tables; satisfying assignments enumerated".into();
    c09_f::<Fp<5>>(r, "F5");
    c09_f::<Fp<13>>(r, "F13");
    c09_f::<Bls>(r, "Bls");
}

// ---------------------------------------------------------------- C10
fn c10_f<F: PrimeField>(r: &mut Rep, f: &str) {
    let cap = F::CAPACITY as usize;
    let mut lens = vec![0, 1, 2, cap - 1, cap, cap + 1, 2 * cap - 1, 2 * cap, 2 * cap + 1, 3 * cap + 2];
    for i in 0..r.n(10, 60) {
        lens.push(i * (cap / 2 + 1) % (5 * cap));
    }
    lens.sort();
    lens.dedup();
    for n in lens {
        for style in 0..3 {
            r.case(&format!("{} pack {} bits style {}", f, n, style), |rng| {
                let vals: Vec<bool> = (0..n).map(|_| match style { 0 => true, _ => rng.next_u32() & 1 == 1 }).collect();
                let mut want = vec![];
                for ch in vals.chunks(cap) {
                    let mut x = F::ZERO;
                    for b in ch.iter().rev() {
                        x = x.double() + b2f::<F>(*b);
                    }
                    want.push(x);
                }
                let native = compute_multipacking::<F>(&vals);
                ensure(native == want, || format!("compute_multipacking of {:?}", vals))?;
                let mut systems = vec![];
                for mode in [Mode::Prove, Mode::Setup] {
                    let mut cs = RecCS::<F>::new(mode);
                    let mut bits = vec![];
                    let mut fixed = vec![];
                    let mut kr = rng.clone();
                    for b in &vals {
                        let k = if style == 1 { 0 } else { kr.next_u32() % 3 };
                        if k == 2 {
                            bits.push(Boolean::constant(*b));
                            continue;
                        }
                        let neg = k == 1;
                        let a = raw_bit(&mut cs, if mode == Mode::Prove { Some(*b ^ neg) } else { None }).unwrap();
                        fixed.push((vn(a.get_variable()), b2f::<F>(*b ^ neg)));
                        bits.push(if neg { Boolean::Not(a) } else { Boolean::Is(a) });
                    }
                    pack_into_inputs(&mut cs, &bits).map_err(|e| format!("{:?}", e))?;
                    ensure(cs.inputs.len() == 1 + want.len(), || format!("{} inputs for {} bits", cs.inputs.len() - 1, n))?;
                    systems.push((cs, fixed, bits));
                }
                let (cs, fixed, _) = &systems[0];
                let s = &systems[1].0;
                ensure(cs.unsatisfied().is_none(), || "honest prover unsatisfied".into())?;
                for (i, w) in want.iter().enumerate() {
                    ensure(cs.inputs[i + 1] == Some(*w), || format!("input {} is not the packed value", i + 1))?;
                }
                ensure(cs.same_shape(s), || "setup circuit differs".into())?;
                let mut cnt = 0;
                match Solver::new(s).search(fixed, &mut |g| {
                    for (i, w) in want.iter().enumerate() {
                        let x = g(2 * (i + 1));
                        ensure(x == *w, || format!("input {} may be {} instead of {}", i + 1, hexf(&x), hexf(w)))?;
                    }
                    Ok(())
                }) {
                    Verdict::Bad(e) => return Err(e),
                    Verdict::Ok { solutions, .. } => cnt += solutions as u64,
                }
                // a different bit string of this length packs differently
                if n > 0 {
                    for _ in 0..4 {
                        let mut o = vals.clone();
                        let k = rng.next_u32() as usize % n;
                        o[k] = !o[k];
                        ensure(compute_multipacking::<F>(&o) != native, || format!("flipping bit {} does not change the packing", k))?;
                    }
                }
                ensure(cnt > 0, || "no satisfying assignment".into())?;
                Ok(cnt)
            });
        }
    }
    r.case(&format!("{} pack missing", f), |_| {
        let mut s = RecCS::<F>::new(Mode::Setup);
        let b = raw_bit(&mut s, None).unwrap();
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(matches!(pack_into_inputs(&mut cs, &[Boolean::Is(b)]), Err(SynthesisError::AssignmentMissing)), || "missing witness".into())?;
        Ok(1)
    });
}
pub fn c10(r: &mut Rep) {
    r.rule = "bit strings around every capacity boundary (0..5 chunks), all-ones and random, constant/allocated/negated bits; byte strings exhaustive for one byte, random otherwise".into();
    c10_f::<Fp<5>>(r, "F5");
    c10_f::<Fp<13>>(r, "F13");
    c10_f::<Fp<131>>(r, "F131");
    c10_f::<Fp<GOLD>>(r, "Gold");
    c10_f::<Bls>(r, "Bls");
    for k in 0..r.n(320, 2000) {
        r.case(&format!("bytes {}", k), |rng| {
            let bytes: Vec<u8> = if k < 256 { vec![k as u8] } else { (0..(k % 70)).map(|_| rng.next_u32() as u8).collect() };
            let (mut be, mut le) = (vec![], vec![]);
            for b in &bytes {
                for i in 0..8 {
                    le.push(b & (1 << i) != 0);
                    be.push(b & (0x80 >> i) != 0);
                }
            }
            ensure(bytes_to_bits(&bytes) == be, || format!("bytes_to_bits {:?}", bytes))?;
            ensure(bytes_to_bits_le(&bytes) == le, || format!("bytes_to_bits_le {:?}", bytes))?;
            Ok(1)
        });
    }
}
