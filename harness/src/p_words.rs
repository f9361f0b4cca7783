//! C05 (UInt32) and C06 (MultiEq)
use crate::fp::*;
use crate::p_gadgets::{b2f, bval, mk, kval, rf, Bls, Kind};
use crate::reccs::*;
use crate::report::*;
use crate::solver::*;
use bellman::gadgets::boolean::*;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::uint32::UInt32;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use rand_core::RngCore;

pub fn word(r: &mut dyn RngCore) -> u32 {
    match r.next_u32() % 8 {
        0 => 0,
        1 => u32::MAX,
        2 => 1,
        3 => 0x8000_0000,
        4 => 1 << (r.next_u32() % 32),
        _ => r.next_u32(),
    }
}
/// how an operand word is made
#[derive(Clone, Debug)]
pub struct W {
    style: u32, // 0 constant, 1 alloc, 2 from_bits mix, 3 from_bits_be mix
    val: u32,
    kinds: Vec<u8>, // per bit (lsb first): 0 Is, 1 Not, 2 Const
}
fn rw(r: &mut dyn RngCore, style: Option<u32>) -> W {
    let style = style.unwrap_or_else(|| r.next_u32() % 6);
    let kinds = (0..32).map(|_| match style { 4 => 2u8, 5 => (r.next_u32() % 2) as u8, _ => (r.next_u32() % 3) as u8 }).collect();
    W { style: if style == 4 || style == 5 { 2 } else { style }, val: word(r), kinds }
}
/// builds the word; pushes (variable, honest value) of every new bit
fn build<F: PrimeField>(cs: &mut RecCS<F>, w: &W, known: bool, fixed: &mut Vec<(usize, F)>) -> Result<UInt32, SynthesisError> {
    let bit = |i: usize| w.val >> i & 1 == 1;
    match w.style {
        0 => Ok(UInt32::constant(w.val)),
        1 => {
            let n = cs.aux.len();
            let u = UInt32::alloc(&mut *cs, if known { Some(w.val) } else { None })?;
            for (i, b) in u.clone().into_bits().iter().enumerate() {
                if let Boolean::Is(b) = b {
                    fixed.push((vn(b.get_variable()), b2f(bit(i))));
                }
            }
            assert!(cs.aux.len() >= n);
            Ok(u)
        }
        _ => {
            let mut bits = vec![];
            for i in 0..32 {
                let v = bit(i);
                bits.push(match w.kinds[i] {
                    2 => Boolean::constant(v),
                    k => {
                        let raw = if k == 0 { v } else { !v };
                        let a = AllocatedBit::alloc(&mut *cs, if known { Some(raw) } else { None })?;
                        fixed.push((vn(a.get_variable()), b2f(raw)));
                        if k == 0 { Boolean::Is(a) } else { Boolean::Not(a) }
                    }
                });
            }
            if w.style == 3 {
                bits.reverse();
                Ok(UInt32::from_bits_be(&bits))
            } else {
                Ok(UInt32::from_bits(&bits))
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Op {
    Xor(usize, usize),
    Ch(usize, usize, usize),
    Maj(usize, usize, usize),
    Rotr(usize, usize),
    Shr(usize, usize),
    Add(Vec<usize>),
    Re(usize, bool), // unpack and repack, either order
}
fn apply(op: &Op, p: &[u32]) -> u32 {
    match op {
        Op::Xor(a, b) => p[*a] ^ p[*b],
        Op::Ch(a, b, c) => (p[*a] & p[*b]) ^ (!p[*a] & p[*c]),
        Op::Maj(a, b, c) => (p[*a] & p[*b]) ^ (p[*a] & p[*c]) ^ (p[*b] & p[*c]),
        Op::Rotr(a, k) => p[*a].rotate_right((*k % 32) as u32),
        Op::Shr(a, k) => p[*a] >> k,
        Op::Add(v) => v.iter().fold(0u32, |s, i| s.wrapping_add(p[*i])),
        Op::Re(a, _) => p[*a],
    }
}
fn run<F: PrimeField>(cs: &mut RecCS<F>, ws: &[W], ops: &[Op], known: bool, probe: bool, fixed: &mut Vec<(usize, F)>) -> Result<Vec<UInt32>, SynthesisError> {
    let mut pool = vec![];
    for w in ws {
        pool.push(build(cs, w, known, fixed)?);
    }
    let mut m = MultiEq::new(&mut *cs);
    let k = pool.len();
    for (i, o) in ops.iter().enumerate() {
        let n = || format!("op {}", i);
        let r = match o {
            Op::Xor(a, b) => pool[*a].xor(m.namespace(n), &pool[*b])?,
            Op::Ch(a, b, c) => UInt32::sha256_ch(m.namespace(n), &pool[*a], &pool[*b], &pool[*c])?,
            Op::Maj(a, b, c) => UInt32::sha256_maj(m.namespace(n), &pool[*a], &pool[*b], &pool[*c])?,
            Op::Rotr(a, k) => pool[*a].rotr(*k),
            Op::Shr(a, k) => pool[*a].shr(*k),
            Op::Add(v) => {
                let o: Vec<UInt32> = v.iter().map(|i| pool[*i].clone()).collect();
                UInt32::addmany(m.namespace(n), &o)?
            }
            Op::Re(a, be) => {
                if *be {
                    UInt32::from_bits_be(&pool[*a].clone().into_bits_be())
                } else {
                    UInt32::from_bits(&pool[*a].clone().into_bits())
                }
            }
        };
        pool.push(r);
    }
    let mut outs = pool.split_off(k);
    if probe {
        // the reported value, seen through a further addition
        let mut extra = vec![];
        for w in &outs {
            extra.push(UInt32::addmany(m.namespace(|| "probe"), &[w.clone(), UInt32::constant(0)])?);
        }
        outs.extend(extra);
    }
    Ok(outs)
}
fn wordval<F: PrimeField>(u: &UInt32, f: &dyn Fn(usize) -> F) -> Result<u32, String> {
    let bits = u.clone().into_bits();
    ensure(bits.len() == 32, || format!("{} bits", bits.len()))?;
    let mut v = 0;
    for (i, b) in bits.iter().enumerate() {
        let x = bval(b, f);
        ensure(x == F::ZERO || x == F::ONE, || format!("bit {} is {}", i, hexf(&x)))?;
        if x == F::ONE {
            v |= 1 << i;
        }
    }
    // big-endian view is the reverse
    let be = u.clone().into_bits_be();
    ensure(be.len() == 32, || "be length".into())?;
    for i in 0..32 {
        ensure(bval(&be[31 - i], f) == bval(&bits[i], f), || "into_bits_be order".into())?;
    }
    Ok(v)
}
fn program<F: PrimeField>(r: &mut Rep, name: &str, mkp: &dyn Fn(&mut dyn RngCore) -> (Vec<W>, Vec<Op>), solve: bool) {
    r.case(name, |rng| {
        let (ws, ops) = mkp(rng);
        let mut vals: Vec<u32> = ws.iter().map(|w| w.val).collect();
        for o in &ops {
            let v = apply(o, &vals);
            vals.push(v);
        }
        let want: Vec<u32> = vals[ws.len()..].to_vec();
        let desc = || format!("words {:?} ops {:?}", ws.iter().map(|w| (w.style, format!("{:08x}", w.val))).collect::<Vec<_>>(), ops);
        let tag = |e: String| format!("{}: {}", desc(), e);
        let mut n = 0;
        for probe in [false, true] {
            let mut fixed = vec![];
            let mut cs = RecCS::<F>::new(Mode::Prove);
            let outs = run(&mut cs, &ws, &ops, true, probe, &mut fixed).map_err(|e| tag(format!("honest prover error {:?}", e)))?;
            if let Some(c) = cs.unsatisfied() {
                return Err(tag(format!("honest prover violates {}", c)));
            }
            let mut want = want.clone();
            if probe {
                want.extend(want.clone());
            }
            for (i, o) in outs.iter().enumerate() {
                let v = wordval(o, &|x| cs.val(x)).map_err(&tag)?;
                ensure(v == want[i], || tag(format!("output {} is {:08x}, expected {:08x}", i, v, want[i])))?;
                for (j, b) in o.clone().into_bits().iter().enumerate() {
                    ensure(b.get_value() == Some(want[i] >> j & 1 == 1), || tag(format!("output {} bit {} reports {:?}", i, j, b.get_value())))?;
                }
            }
            let mut sf = vec![];
            let mut setup = RecCS::<F>::new(Mode::Setup);
            let souts = run(&mut setup, &ws, &ops, false, probe, &mut sf).map_err(|e| tag(format!("setup error {:?}", e)))?;
            // an all-constant sum is folded, in both modes
            ensure(cs.same_shape(&setup), || tag("constraints differ between setup and proving".into()))?;
            n += 1;
            if solve {
                for (s, o) in [(&cs, &outs), (&setup, &souts)] {
                    match Solver::new(s).search(&fixed, &mut |f| {
                        for i in 0..o.len() {
                            let v = wordval(&o[i], f)?;
                            ensure(v == want[i], || tag(format!("output {} is {:08x}, expected {:08x}", i, v, want[i])))?;
                        }
                        Ok(())
                    }) {
                        Verdict::Bad(e) => return Err(e),
                        Verdict::Ok { solutions, complete } => {
                            ensure(solutions > 0 || !complete, || tag("no satisfying assignment".into()))?;
                            n += solutions as u64;
                        }
                    }
                }
            }
        }
        Ok(n)
    });
}
fn c05_f<F: PrimeField>(r: &mut Rep, f: &str) {
    for style in 0..6u32 {
        for k in 0..4 {
            program::<F>(r, &format!("{} make style {} {}", f, style, k), &move |g| (vec![rw(g, Some(style))], vec![Op::Re(0, false), Op::Re(0, true), Op::Rotr(0, 0), Op::Shr(0, 0)]), true);
        }
        for by in 0..70 {
            program::<F>(r, &format!("{} rotr {} style {}", f, by, style), &move |g| (vec![rw(g, Some(style))], vec![Op::Rotr(0, by)]), by % 8 == 0);
            if by < 32 {
                program::<F>(r, &format!("{} shr {} style {}", f, by, style), &move |g| (vec![rw(g, Some(style))], vec![Op::Shr(0, by)]), by % 8 == 0);
            }
        }
    }
    for k in 0..r.n(12, 400) {
        program::<F>(r, &format!("{} xor {}", f, k), &|g| (vec![rw(g, None), rw(g, None)], vec![Op::Xor(0, 1), Op::Xor(0, 0)]), true);
        program::<F>(r, &format!("{} ch {}", f, k), &|g| (vec![rw(g, None), rw(g, None), rw(g, None)], vec![Op::Ch(0, 1, 2)]), true);
        program::<F>(r, &format!("{} maj {}", f, k), &|g| (vec![rw(g, None), rw(g, None), rw(g, None)], vec![Op::Maj(0, 1, 2)]), true);
    }
    for cnt in 2..=10usize {
        for style in 0..6u32 {
            program::<F>(r, &format!("{} add {} style {}", f, cnt, style), &move |g| ((0..cnt).map(|_| rw(g, Some(style))).collect(), vec![Op::Add((0..cnt).collect())]), true);
        }
        // extreme sums: every carry
        program::<F>(r, &format!("{} add {} max", f, cnt), &move |g| ((0..cnt).map(|_| { let mut w = rw(g, Some(1)); w.val = u32::MAX; w }).collect(), vec![Op::Add((0..cnt).collect())]), true);
        program::<F>(r, &format!("{} add {} one variable and constants", f, cnt), &move |g| ((0..cnt).map(|i| rw(g, Some(if i == cnt / 2 { 1 } else { 0 }))).collect(), vec![Op::Add((0..cnt).collect())]), true);
        for k in 0..r.n(3, 60) {
            program::<F>(r, &format!("{} add {} mix {}", f, cnt, k), &move |g| ((0..cnt).map(|_| rw(g, None)).collect(), vec![Op::Add((0..cnt).collect())]), true);
        }
    }
    // several sums batched in one context, and random programs
    for k in 0..r.n(40, 800) {
        program::<F>(r, &format!("{} program {}", f, k), &move |g| {
            let n = 2 + (g.next_u32() % 3) as usize;
            let ws: Vec<W> = (0..n).map(|_| rw(g, None)).collect();
            let mut ops = vec![];
            let mut m = n;
            for _ in 0..(2 + g.next_u32() % 12) {
                let mut i = || (g.next_u32() as usize) % m;
                let (a, b, c) = (i(), i(), i());
                ops.push(match g.next_u32() % 9 {
                    0 => Op::Xor(a, b),
                    1 => Op::Ch(a, b, c),
                    2 => Op::Maj(a, b, c),
                    3 => Op::Rotr(a, b * 7 + 3),
                    4 => Op::Shr(a, (b * 5 + c) % 32),
                    5 => Op::Re(a, b % 2 == 0),
                    _ => Op::Add((0..(2 + g.next_u32() as usize % 9)).map(|_| (g.next_u32() as usize) % m).collect()),
                });
                m += 1;
            }
            (ws, ops)
        }, k % 2 == 0);
    }
    // missing witnesses are errors
    r.case(&format!("{} missing", f), |g| {
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(matches!(UInt32::alloc(&mut cs, None), Err(SynthesisError::AssignmentMissing)), || "alloc".into())?;
        let mut s = RecCS::<F>::new(Mode::Setup);
        let u = UInt32::alloc(&mut s, None).map_err(|e| format!("{:?}", e))?;
        let c = UInt32::constant(word(g));
        let e = |x: Result<UInt32, SynthesisError>, n: &str| ensure(matches!(x, Err(SynthesisError::AssignmentMissing)), || format!("{} with an unknown operand", n));
        e(UInt32::addmany(MultiEq::new(&mut cs).namespace(|| ""), &[u.clone(), c.clone()]), "addmany")?;
        e(UInt32::addmany(MultiEq::new(&mut cs).namespace(|| ""), &[c.clone(), u.clone(), c]), "addmany")?;
        e(u.xor(&mut cs, &u), "xor")?;
        e(UInt32::sha256_ch(&mut cs, &u, &u, &u), "ch")?;
        e(UInt32::sha256_maj(&mut cs, &u, &u, &u), "maj")?;
        Ok(1)
    });
    r.case(&format!("{} bad lengths", f), |_| {
        for n in [0usize, 1, 31, 33, 64] {
            let b = vec![Boolean::constant(true); n];
            ensure(panics(|| { UInt32::from_bits(&b); }), || format!("from_bits of {} bits accepted", n))?;
            ensure(panics(|| { UInt32::from_bits_be(&b); }), || format!("from_bits_be of {} bits accepted", n))?;
        }
        Ok(1)
    });
}
pub fn c05(r: &mut Rep) {
    r.rule = "operand words constant, allocated or mixed per bit (allocated/negated/constant), values 0, max, single bits and random; every rotation 0..70 and shift 0..31, 2..10 addends, random programs sharing one batching context; honest prover, unknown-value circuit and satisfying assignments with the operand bits fixed; reported values observed through a further addition".into();
    c05_f::<Fp<GOLD>>(r, "Gold");
    c05_f::<Bls>(r, "Bls");
}

// ---------------------------------------------------------------- C06
/// terms over bits: (bit index, signed integer coefficient)
#[derive(Clone, Debug)]
struct Eqn {
    w: usize,
    l: Vec<(usize, i64)>,
    r: Vec<(usize, i64)>,
}
fn fi<F: PrimeField>(x: i64) -> F {
    if x < 0 { -F::from(x.unsigned_abs()) } else { F::from(x as u64) }
}
/// both sides stay in [0, 2^w) for every value of the bits
fn reqn(r: &mut dyn RngCore, nb: usize, w: usize) -> Eqn {
    let side = |r: &mut dyn RngCore| {
        let mut out = vec![];
        let mut room: i64 = (1i64 << w) - 1;
        let n = 1 + r.next_u32() % 4;
        for _ in 0..n {
            if room == 0 {
                break;
            }
            let c = match r.next_u32() % 4 { 0 => room, 1 => 1, _ => 1 + (r.next_u64() % room as u64) as i64 };
            room -= c;
            out.push(((r.next_u32() as usize) % nb, c));
        }
        out
    };
    Eqn { w, l: side(r), r: side(r) }
}
fn lc_of<F: PrimeField>(t: &[(usize, i64)], v: &[Variable]) -> LinearCombination<F> {
    t.iter().fold(LinearCombination::zero(), |a, (i, c)| a + (fi::<F>(*c), v[*i]))
}
fn c06_brute<F: PrimeField>(r: &mut Rep, f: &str, cap: usize) {
    for k in 0..r.n(250, 6000) {
        r.case(&format!("{} equalities {}", f, k), |rng| {
            let nb = 6;
            let count = 1 + (rng.next_u32() % 7) as usize;
            let mut used = 0usize;
            let mut eqs = vec![];
            for _ in 0..count {
                // aim at the boundary: exactly full, one below, one above
                let w = match rng.next_u32() % 4 {
                    0 if used < cap - 2 => cap - 1 - used,
                    1 if used < cap - 1 => (cap - used).min(cap - 1),
                    _ => 1 + (rng.next_u32() as usize) % (cap - 1),
                };
                used = if used + w >= cap { w } else { used + w };
                eqs.push(reqn(rng, nb, w));
            }
            let mut cs = RecCS::<F>::new(Mode::Setup);
            let v: Vec<Variable> = (0..nb).map(|_| cs.alloc(|| "b", || Ok(F::ZERO)).unwrap()).collect();
            {
                let mut m = MultiEq::new(&mut cs);
                for e in &eqs {
                    m.enforce_equal(e.w, &lc_of(&e.l, &v), &lc_of(&e.r, &v));
                }
            }
            ensure(cs.depth == 0, || "namespaces".into())?;
            for a in 0..(1u32 << nb) {
                let bit = |n: usize| if n == 0 { F::ONE } else { b2f(a >> (n / 2) & 1 == 1) };
                let sat = cs.cons.iter().all(|(x, y, z)| evt(x, &bit) * evt(y, &bit) == evt(z, &bit));
                let iv = |t: &[(usize, i64)]| t.iter().map(|(i, c)| c * (a >> i & 1) as i64).sum::<i64>();
                let want = eqs.iter().all(|e| iv(&e.l) == iv(&e.r));
                ensure(sat == want, || format!("equations {:?}, bits {:06b}: constraints satisfied = {}, equalities hold = {}", eqs, a, sat, want))?;
            }
            Ok(64)
        });
    }
}
/// values as free variables (fed by the prover), differences chosen to cancel across equations
fn c06_attack<F: PrimeField>(r: &mut Rep, f: &str, cap: usize) {
    for k in 0..r.n(120, 3000) {
        r.case(&format!("{} forged {}", f, k), |rng| {
            let count = 2 + (rng.next_u32() % 9) as usize;
            let ws: Vec<usize> = (0..count).map(|_| match rng.next_u32() % 6 { 0 => 1, 1 => cap - 1, 2 => 32, 3 => 1 + (rng.next_u32() as usize) % (cap - 1), 4 => cap / 2, _ => 33 + (rng.next_u32() as usize) % 4 }.min(cap - 1)).collect();
            let mut cs = RecCS::<F>::new(Mode::Setup);
            let mut vs = vec![];
            for _ in 0..2 * count {
                vs.push(cs.alloc(|| "x", || Ok(F::ZERO)).unwrap());
            }
            {
                let mut m = MultiEq::new(&mut cs);
                for i in 0..count {
                    m.enforce_equal(ws[i], &(LinearCombination::zero() + vs[2 * i]), &(LinearCombination::zero() + vs[2 * i + 1]));
                }
            }
            let sat = |vals: &[F]| {
                let g = |n: usize| if n == 0 { F::ONE } else { vals[n / 2] };
                cs.cons.iter().all(|(x, y, z)| evt(x, &g) * evt(y, &g) == evt(z, &g))
            };
            // small values in range
            let pow = |w: usize| F::from(2).pow_vartime([w as u64]);
            let eqv: Vec<F> = (0..2 * count).map(|i| { let w = ws[i / 2].min(63); F::from(if i % 2 == 0 { (1u64 << w) - 1 } else { 0 }) }).collect();
            let mut base: Vec<F> = vec![F::ZERO; 2 * count];
            ensure(sat(&base), || "all-zero values rejected".into())?;
            for i in 0..count {
                base[2 * i] = eqv[2 * i];
                base[2 * i + 1] = eqv[2 * i];
            }
            ensure(sat(&base), || "equal values rejected".into())?;
            let mut n = 1;
            // one equality broken in one place
            for i in 0..count {
                let mut b = base.clone();
                b[2 * i + (rng.next_u32() % 2) as usize] -= F::ONE;
                ensure(!sat(&b), || format!("widths {:?}: equality {} not enforced", ws, i))?;
                n += 1;
            }
            // d_i = 2^k against d_j = -1: cancels if j is scaled only k bits above i
            for i in 0..count {
                for j in 0..count {
                    if i == j {
                        continue;
                    }
                    for e in 0..ws[i].min(64) {
                        let mut b = base.clone();
                        b[2 * i] = pow(e);
                        b[2 * i + 1] = F::ZERO;
                        b[2 * j] = F::ZERO;
                        b[2 * j + 1] = F::ONE;
                        ensure(!sat(&b), || format!("widths {:?}: 2^{} in equality {} cancels -1 in equality {}", ws, e, i, j))?;
                        n += 1;
                    }
                }
            }
            // a whole constraint adding up to the modulus: p written in mixed radix of the recorded coefficients
            for (lhs, _, rhs) in &cs.cons {
                let fld = Field::<F>::new();
                let mut rem = fld.p;
                let mut items: Vec<(usize, F, I)> = lhs.iter().map(|(v, c)| (*v, *c, I::of(c))).collect();
                items.sort_by(|a, b| if a.2.lt(b.2) { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less });
                let mut b = vec![F::ZERO; 2 * count];
                let mut ok = true;
                for (v, _, c) in &items {
                    if *v == 0 {
                        ok = false;
                        break;
                    }
                    // largest value below 2^w with value*c <= rem
                    let w = ws[v / 2 / 2];
                    let mut val = F::ZERO;
                    for e in (0..w).rev() {
                        let s = shl(*c, e);
                        if !rem.lt(s) {
                            rem = rem.sub(s);
                            val += pow(e);
                        }
                    }
                    b[v / 2] = val;
                }
                if ok && rem == I::Z && !items.is_empty() {
                    let _ = rhs;
                    ensure(!sat(&b), || format!("widths {:?}: values adding up to the modulus are accepted as zero", ws))?;
                    n += 1;
                }
            }
            Ok(n)
        });
    }
}
fn shl(a: I, e: usize) -> I {
    let mut x = a;
    for _ in 0..e {
        x = x.add(x);
    }
    x
}
type Lc<F> = LinearCombination<F>;
macro_rules! traffic_fn {
    ($name:ident, $next:ident) => {
pub fn $name<F: PrimeField, CS: ConstraintSystem<F>>(mut cs: CS, seed: u64, steps: usize, res: &mut Vec<Result<usize, String>>) {
    use rand_core::SeedableRng;
    let mut g = rand_xorshift::XorShiftRng::seed_from_u64(seed);
    let mut vars = vec![CS::one()];
    for i in 0..steps {
        match g.next_u32() % 6 {
            0 | 1 => {
                let x: F = rf(&mut g);
                let miss = g.next_u32() % 8 == 0;
                let r = cs.alloc(|| format!("a{}", i), || if miss { Err(SynthesisError::PolynomialDegreeTooLarge) } else { Ok(x) });
                if let Ok(v) = &r { vars.push(*v); }
                res.push(r.map(vn).map_err(|e| format!("{:?}", e)));
            }
            2 => {
                let x: F = rf(&mut g);
                let miss = g.next_u32() % 8 == 0;
                let r = cs.alloc_input(|| format!("i{}", i), || if miss { Err(SynthesisError::UnconstrainedVariable) } else { Ok(x) });
                if let Ok(v) = &r { vars.push(*v); }
                res.push(r.map(vn).map_err(|e| format!("{:?}", e)));
            }
            3 => {
                let mut p = |_: usize| { let c: F = rf(&mut g); (c, vars[(g.next_u32() as usize) % vars.len()]) };
                let (a, b, c, d) = (p(0), p(1), p(2), p(3));
                cs.enforce(|| format!("e{}", i), |l: Lc<F>| l + a + d.1, |l: Lc<F>| l + b, |l: Lc<F>| l - c + d);
            }
            4 => {
                let depth = 1 + g.next_u32() % 3;
                let sub = g.next_u64();
                let mut ns = cs.namespace(|| format!("n{}", i));
                if depth == 1 {
                    $next(&mut ns, sub, steps / 2, res);
                } else {
                    let mut n2 = ns.namespace(|| "inner");
                    $next(&mut n2, sub, steps / 2, res);
                }
            }
            _ => {
                let mut c: F = rf(&mut g);
                let ns = cs.namespace(|| format!("o{}", i));
                let mut ns = ns;
                let r = ns.alloc(|| "z", || { c = c.double(); Ok(c) });
                if let Ok(v) = &r { vars.push(*v); }
                res.push(r.map(vn).map_err(|e| format!("{:?}", e)));
            }
        }
    }
}
    };
}
fn traffic_end<F: PrimeField, CS: ConstraintSystem<F>>(mut cs: CS, seed: u64, _steps: usize, res: &mut Vec<Result<usize, String>>) {
    let r = cs.alloc(|| "leaf", || Ok(F::from(seed % 1000)));
    let v = r.as_ref().ok().copied().unwrap_or(CS::one());
    res.push(r.map(vn).map_err(|e| format!("{:?}", e)));
    let root = cs.get_root();
    root.enforce(|| "leaf", |l| l + v, |l| l, |l: Lc<F>| l - v);
}
traffic_fn!(traffic1, traffic_end);
traffic_fn!(traffic2, traffic1);
traffic_fn!(traffic, traffic2);
fn c06_pass<F: PrimeField>(r: &mut Rep, f: &str) {
    for k in 0..r.n(60, 1500) {
        r.case(&format!("{} traffic {}", f, k), |rng| {
            let seed = rng.next_u64();
            let steps = 3 + k % 14;
            let fail = if k % 3 == 0 { Some((rng.next_u32() % 5) as usize) } else { None };
            let go = |wrap: bool, eqs: usize| {
                let mut cs = RecCS::<F>::new(if k % 2 == 0 { Mode::Prove } else { Mode::Setup });
                cs.log = true;
                cs.fail_at = fail;
                let mut res = vec![];
                if wrap {
                    let mut m = MultiEq::new(&mut cs);
                    for j in 0..eqs {
                        m.enforce_equal(1, &(LinearCombination::zero() + <RecCS<F> as ConstraintSystem<F>>::one()), &LinearCombination::zero());
                        let _ = j;
                    }
                    traffic(&mut m, seed, steps, &mut res);
                } else {
                    traffic(&mut cs, seed, steps, &mut res);
                }
                (cs, res)
            };
            let (a, ra) = go(false, 0);
            let (b, rb) = go(true, 0);
            ensure(ra == rb, || format!("results differ: {:?} vs {:?}", ra, rb))?;
            ensure(a.events == b.events, || format!("events differ at {:?}", a.events.iter().zip(&b.events).position(|(x, y)| x != y)))?;
            ensure(a.inputs == b.inputs && a.aux == b.aux, || "assignments differ".into())?;
            // with a pending equality: the same traffic, then exactly one closing constraint
            let (c, rc) = go(true, 1);
            ensure(ra == rc, || "results differ with a pending equality".into())?;
            ensure(c.events.len() == a.events.len() + 1 && c.events[..a.events.len()] == a.events[..], || "traffic changed by a pending equality".into())?;
            Ok(1)
        });
    }
    r.case(&format!("{} empty", f), |_| {
        let mut cs = RecCS::<F>::new(Mode::Prove);
        drop(MultiEq::new(&mut cs));
        ensure(cs.cons.is_empty() && cs.aux.is_empty(), || "constraints from an unused context".into())?;
        Ok(1)
    });
    // one() of the underlying system
    r.case(&format!("{} one", f), |_| {
        ensure(vn(<MultiEq<F, RecCS<F>> as ConstraintSystem<F>>::one()) == 0, || "one".into())?;
        Ok(1)
    });
}
pub fn c06(r: &mut Rep) {
    r.rule = "equalities over bits with random integer coefficients and widths aimed at the capacity boundary, every bit assignment enumerated over 7-13 bit fields; free values over the 64-bit and 255-bit fields with every single-equality break, power-of-two cancellation and modulus decomposition; pass-through compared event by event".into();
    c06_brute::<Fp<131>>(r, "F131", 7);
    c06_brute::<Fp<251>>(r, "F251", 7);
    c06_brute::<Fp<257>>(r, "F257", 8);
    c06_brute::<Fp<8191>>(r, "F8191", 12);
    c06_attack::<Fp<8191>>(r, "F8191", 12);
    c06_attack::<Fp<GOLD>>(r, "Gold", 63);
    c06_attack::<Bls>(r, "Bls", 254);
    c06_pass::<Fp<13>>(r, "F13");
    c06_pass::<Bls>(r, "Bls");
    let _ = (mk as fn(Kind, &[AllocatedBit]) -> Boolean, kval as fn(Kind, &[bool]) -> bool);
}
