//! C15-C19: Groth16 against an oracle that knows every discrete logarithm, and BLS12-381
use crate::engine::*;
use crate::fp::*;
use crate::p_algebra::pools;
use crate::p_gadgets::rf;
use crate::reccs::*;
use crate::report::*;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable, VerificationError};
use bls12_381::Bls12;
use ff::{Field, PrimeField, PrimeFieldBits};
use group::{prime::PrimeCurveAffine, Curve, Group, GroupEncoding, UncompressedEncoding};
use groth16::*;
use pairing::{Engine, MultiMillerLoop};
use rand_core::{CryptoRng, RngCore, SeedableRng};
use rand_xorshift::XorShiftRng;
use std::sync::Arc;

// ------------------------------------------------------------------ circuits
#[derive(Clone, Debug)]
pub struct Circ<F> {
    order: Vec<bool>, // true: public input
    inputs: Vec<F>,   // without the constant one
    aux: Vec<F>,
    cons: Vec<(Terms<F>, Terms<F>, Terms<F>)>,
    early: bool,            // constraints as soon as their variables exist
    missing: Option<usize>, // this allocation has no value
    give_up: bool,          // synthesis itself fails at the end
}
impl<F: PrimeField> Circ<F> {
    fn val(&self, n: usize) -> F {
        if n == 0 { F::ONE } else if n % 2 == 0 { self.inputs[n / 2 - 1] } else { self.aux[n / 2] }
    }
    fn desc(&self) -> String {
        let t = |t: &Terms<F>| t.iter().map(|(v, c)| format!("{}*{}{}", crate::solver::hexf(c), if v % 2 == 0 { "in" } else { "aux" }, v / 2)).collect::<Vec<_>>().join("+");
        let c: Vec<String> = self.cons.iter().take(12).map(|(a, b, c)| format!("({})*({})=({})", t(a), t(b), t(c))).collect();
        format!("{} inputs, {} aux, {} constraints: {}", self.inputs.len(), self.aux.len(), self.cons.len(), c.join("; "))
    }
}
impl<F: PrimeField> Circuit<F> for Circ<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let lc = |t: &Terms<F>| {
            let t = t.clone();
            move |mut l: LinearCombination<F>| {
                for (v, c) in t {
                    let x = Variable::new_unchecked(if v % 2 == 0 { Index::Input(v / 2) } else { Index::Aux(v / 2) });
                    if c == F::ONE {
                        l = l + x;
                    } else if c == -F::ONE {
                        l = l - x;
                    } else {
                        l = l + (c, x);
                    }
                }
                l
            }
        };
        let mut emitted = vec![false; self.cons.len()];
        let (mut ni, mut na) = (0, 0);
        for (k, inp) in self.order.iter().enumerate() {
            let v = if *inp { self.inputs[ni] } else { self.aux[na] };
            let missing = self.missing == Some(k);
            let f = || if missing { Err(SynthesisError::AssignmentMissing) } else { Ok(v) };
            if *inp {
                cs.alloc_input(|| format!("i{}", ni), f)?;
                ni += 1;
            } else {
                cs.alloc(|| format!("a{}", na), f)?;
                na += 1;
            }
            if self.early {
                for (j, (a, b, c)) in self.cons.iter().enumerate() {
                    let ready = a.iter().chain(b).chain(c).all(|(v, _)| if v % 2 == 0 { v / 2 <= ni } else { v / 2 < na });
                    if ready && !emitted[j] {
                        emitted[j] = true;
                        cs.enforce(|| format!("c{}", j), lc(a), lc(b), lc(c));
                    }
                }
            }
        }
        for (j, (a, b, c)) in self.cons.iter().enumerate() {
            if !emitted[j] {
                let mut ns = cs.namespace(|| "late");
                ns.enforce(|| format!("c{}", j), lc(a), lc(b), lc(c));
            }
        }
        if self.give_up {
            return Err(SynthesisError::DivisionByZero);
        }
        Ok(())
    }
}
fn rterms<F: PrimeField>(g: &mut XorShiftRng, ni: usize, na: usize, max: usize, cancel: bool) -> Terms<F> {
    let n = g.next_u32() as usize % (max + 1);
    let mut t: Terms<F> = vec![];
    for _ in 0..n {
        let k = g.next_u32() as usize % (1 + ni + na);
        let v = if k <= ni { 2 * k } else { 2 * (k - ni - 1) + 1 };
        t.push((v, rf(g)));
    }
    if !t.is_empty() && g.next_u32() % 4 == 0 {
        let (v, c) = t[0];
        t.push((v, c)); // duplicate
    }
    if cancel {
        for _ in 0..(1 + g.next_u32() % 2) {
            let k = g.next_u32() as usize % (1 + ni + na);
            let v = if k <= ni { 2 * k } else { 2 * (k - ni - 1) + 1 };
            // remove every trace of v, then add terms that sum to zero
            t.retain(|(w, _)| *w != v);
            let c: F = rf(g);
            match g.next_u32() % 3 {
                0 => { t.insert(0, (v, c)); t.push((v, -c)); }
                1 => { t.push((v, c)); t.push((v, c)); t.push((v, -c.double())); }
                _ => t.push((v, F::ZERO)),
            }
        }
    }
    t
}
/// a random satisfiable circuit whose private variables are all constrained
pub fn rcirc<F: PrimeField>(g: &mut XorShiftRng, ni: usize, na: usize, nc: usize, cancel: bool) -> Circ<F> {
    let mut order: Vec<bool> = vec![true; ni];
    order.extend(vec![false; na]);
    for i in (1..order.len()).rev() {
        order.swap(i, g.next_u32() as usize % (i + 1));
    }
    let mut c = Circ {
        order,
        inputs: (0..ni).map(|_| rf(g)).collect(),
        aux: (0..na).map(|_| rf(g)).collect(),
        cons: vec![],
        early: g.next_u32() % 2 == 0,
        missing: None,
        give_up: false,
    };
    for k in 0..nc {
        let cc = cancel && g.next_u32() % 2 == 0;
        let mut a = rterms::<F>(g, ni, na, 4, cc);
        let cc = cancel && g.next_u32() % 2 == 0;
        let mut b = rterms::<F>(g, ni, na, 3, cc);
        let cc = cancel && g.next_u32() % 4 == 0;
        let mut o = rterms::<F>(g, ni, na, 3, cc);
        if na > 0 && k < na {
            // make sure variable k occurs
            let x: F = F::random(&mut *g);
            match g.next_u32() % 3 {
                0 => a.push((2 * k + 1, x)),
                1 => b.push((2 * k + 1, x)),
                _ => o.push((2 * k + 1, x)),
            }
        }
        let e = |t: &Terms<F>| evt(t, &|n| c.val(n));
        let d = e(&a) * e(&b) - e(&o);
        if !d.is_zero_vartime() {
            o.push((0, d));
        }
        c.cons.push((a, b, o));
    }
    c
}
// ------------------------------------------------------------------ QAP oracle
pub struct Trap<F> {
    g1: F,
    g2: F,
    alpha: F,
    beta: F,
    gamma: F,
    delta: F,
    tau: F,
}
fn trap<F: PrimeField>(g: &mut XorShiftRng) -> Trap<F> {
    let mut nz = || loop {
        let x = F::random(&mut *g);
        if !x.is_zero_vartime() {
            break x;
        }
    };
    Trap { g1: nz(), g2: nz(), alpha: nz(), beta: nz(), gamma: nz(), delta: nz(), tau: nz() }
}
struct Qap<F> {
    m: usize,
    t: F,
    // per variable (inputs then aux): u, v, w at tau
    uvw: Vec<(F, F, F)>,
    ni: usize,
}
fn record<F: PrimeField>(c: &Circ<F>) -> RecCS<F> {
    let mut cs = RecCS::new(Mode::Prove);
    c.clone().synthesize(&mut cs).unwrap();
    cs
}
fn qap<F: PrimeField>(cs: &RecCS<F>, tau: F) -> Option<Qap<F>> {
    let ni = cs.inputs.len();
    let na = cs.aux.len();
    let n = cs.cons.len() + ni;
    let (mut m, mut k) = (1usize, 0u32);
    while m < n {
        m *= 2;
        k += 1;
    }
    if k >= F::S {
        return None;
    }
    let mut w = F::ROOT_OF_UNITY;
    for _ in 0..(F::S - k) {
        w = w.square();
    }
    let t = tau.pow_vartime([m as u64]) - F::ONE;
    // Lagrange basis at tau
    let minv = F::from(m as u64).invert().unwrap();
    let mut x = F::ONE;
    let mut lag = vec![];
    for _ in 0..n {
        lag.push(if tau == x { F::ONE } else { x * t * minv * (tau - x).invert().unwrap() });
        x *= w;
    }
    let mut uvw = vec![(F::ZERO, F::ZERO, F::ZERO); ni + na];
    let at = |v: usize| if v % 2 == 0 { v / 2 } else { ni + v / 2 };
    for (j, (a, b, c)) in cs.cons.iter().enumerate() {
        for (v, k) in a {
            uvw[at(*v)].0 += lag[j] * k;
        }
        for (v, k) in b {
            uvw[at(*v)].1 += lag[j] * k;
        }
        for (v, k) in c {
            uvw[at(*v)].2 += lag[j] * k;
        }
    }
    for i in 0..ni {
        uvw[i].0 += lag[cs.cons.len() + i];
    }
    Some(Qap { m, t, uvw, ni })
}
type E<const P: u64> = Eng<P>;
fn gen<const P: u64>(c: &Circ<Fp<P>>, t: &Trap<Fp<P>>) -> Result<Parameters<E<P>>, SynthesisError> {
    generate_parameters::<E<P>, _>(c.clone(), D1::of(t.g1), D2::of(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau)
}
fn d1<const P: u64>(v: &[D1<P>]) -> String {
    format!("{:?}", v.iter().map(|x| x.v.0).take(20).collect::<Vec<_>>())
}
fn check_gen<const P: u64>(c: &Circ<Fp<P>>, t: &Trap<Fp<P>>) -> Result<bool, String> {
    type F<const P: u64> = Fp<P>;
    let cs = record(c);
    let tag = |s: &str| format!("{} [{}; g1 {} g2 {} alpha {} beta {} gamma {} delta {} tau {}]", s, c.desc(), t.g1.0, t.g2.0, t.alpha.0, t.beta.0, t.gamma.0, t.delta.0, t.tau.0);
    let r = gen(c, t);
    let q = match qap(&cs, t.tau) {
        Some(q) => q,
        None => {
            // the largest power of two itself may be refused
            return Ok(false);
        }
    };
    if t.gamma.0 == 0 || t.delta.0 == 0 {
        return match r {
            Err(SynthesisError::UnexpectedIdentity) => Ok(true),
            Err(e) => Err(tag(&format!("zero gamma or delta reported as {:?}", e))),
            Ok(_) => Err(tag("zero gamma or delta accepted")),
        };
    }
    let (gi, di) = (t.gamma.invert().unwrap(), t.delta.invert().unwrap());
    let e = |x: &(F<P>, F<P>, F<P>)| t.beta * x.0 + t.alpha * x.1 + x.2;
    let l: Vec<D1<P>> = q.uvw[q.ni..].iter().map(|x| D1::of(t.g1 * e(x) * di)).collect();
    if l.iter().any(|x| x.v.0 == 0) {
        return match r {
            Err(SynthesisError::UnconstrainedVariable) => Ok(true),
            Err(e) => Err(tag(&format!("unconstrained variable reported as {:?}", e))),
            Ok(_) => Err(tag("unconstrained variable accepted")),
        };
    }
    let p = r.map_err(|e| tag(&format!("generation failed: {:?}", e)))?;
    let eq1 = |n: &str, a: &[D1<P>], b: &[D1<P>]| ensure(a == b, || tag(&format!("{}: got {}, expected {}", n, d1(a), d1(b))));
    let o1 = |x: F<P>| D1::of(t.g1 * x);
    let o2 = |x: F<P>| D2::of(t.g2 * x);
    eq1("vk.alpha_g1", &[p.vk.alpha_g1], &[o1(t.alpha)])?;
    eq1("vk.beta_g1", &[p.vk.beta_g1], &[o1(t.beta)])?;
    eq1("vk.delta_g1", &[p.vk.delta_g1], &[o1(t.delta)])?;
    ensure(p.vk.beta_g2 == o2(t.beta), || tag("vk.beta_g2"))?;
    ensure(p.vk.gamma_g2 == o2(t.gamma), || tag("vk.gamma_g2"))?;
    ensure(p.vk.delta_g2 == o2(t.delta), || tag("vk.delta_g2"))?;
    let ic: Vec<D1<P>> = q.uvw[..q.ni].iter().map(|x| o1(e(x) * gi)).collect();
    eq1("vk.ic", &p.vk.ic, &ic)?;
    eq1("l", &p.l, &l)?;
    let h: Vec<D1<P>> = (0..q.m - 1).map(|i| o1(t.tau.pow_vartime([i as u64]) * q.t * di)).collect();
    eq1("h", &p.h, &h)?;
    let a: Vec<D1<P>> = q.uvw.iter().filter(|x| x.0 .0 != 0).map(|x| o1(x.0)).collect();
    eq1("a", &p.a, &a)?;
    let b: Vec<D1<P>> = q.uvw.iter().filter(|x| x.1 .0 != 0).map(|x| o1(x.1)).collect();
    eq1("b_g1", &p.b_g1, &b)?;
    let b2: Vec<D2<P>> = q.uvw.iter().filter(|x| x.1 .0 != 0).map(|x| o2(x.1)).collect();
    ensure(*p.b_g2 == b2, || tag("b_g2"))?;
    Ok(true)
}
fn c15_f<const P: u64>(r: &mut Rep, name: &str, maxc: usize, pools: &[rayon::ThreadPool]) {
    let reps = r.n(60, 2000);
    for k in 0..reps {
        r.case(&format!("{} circuit {}", name, k), |g| {
            let ni = g.next_u32() as usize % 5;
            let na = g.next_u32() as usize % 7;
            let nc = if k % 7 == 0 { g.next_u32() as usize % (maxc + 1) } else { (na + g.next_u32() as usize % 6).min(maxc) };
            let c = rcirc::<Fp<P>>(g, ni, na, nc, k % 3 == 0);
            let mut n = 0;
            for j in 0..3 {
                let t = trap(g);
                let pool = &pools[(k + j) % pools.len()];
                n += pool.install(|| check_gen(&c, &t))? as u64;
            }
            Ok(n)
        });
    }
    for k in 0..r.n(6, 60) {
        r.case(&format!("{} zero trapdoors {}", name, k), |g| {
            let c = rcirc::<Fp<P>>(g, 1, 2, 3, false);
            let mut n = 0;
            for z in 0..6 {
                let mut t = trap(g);
                match z {
                    0 => t.gamma = Fp(0),
                    1 => t.delta = Fp(0),
                    2 => { t.gamma = Fp(0); t.delta = Fp(0) }
                    3 => t.tau = Fp(0),
                    4 => t.alpha = Fp(0),
                    _ => t.beta = Fp(0),
                }
                n += check_gen(&c, &t)? as u64;
            }
            // tau a root of unity of the domain
            let mut t = trap(g);
            t.tau = Fp(1);
            n += check_gen(&c, &t)? as u64;
            Ok(n)
        });
        r.case(&format!("{} unconstrained {}", name, k), |g| {
            let na = 1 + g.next_u32() as usize % 4;
            let mut c = rcirc::<Fp<P>>(g, 1, na, na + 1, false);
            // remove one private variable everywhere, or leave only zero or cancelling terms
            let v = 2 * (g.next_u32() as usize % na) + 1;
            for (a, b, o) in c.cons.iter_mut() {
                for t in [a, b, o] {
                    t.retain(|(w, _)| *w != v);
                }
            }
            let x: Fp<P> = rf(g);
            match k % 4 {
                0 => c.cons[0].0.push((v, Fp(0))),
                1 => { c.cons[0].1.push((v, x)); c.cons[0].1.push((v, -x)); }
                2 => { c.cons[0].2.push((v, x)); c.cons[0].2.push((v, -x)); }
                _ => {}
            }
            let t = trap(g);
            match gen(&c, &t) {
                Err(SynthesisError::UnconstrainedVariable) => Ok(1),
                Err(e) => Err(format!("{}: {:?}", c.desc(), e)),
                Ok(_) => Err(format!("aux {} is unconstrained, yet parameters were generated: {}", v / 2, c.desc())),
            }
        });
    }
    r.case(&format!("{} failing synthesis", name), |g| {
        let mut c = rcirc::<Fp<P>>(g, 1, 2, 3, false);
        c.give_up = true;
        ensure(matches!(gen(&c, &trap(g)), Err(SynthesisError::DivisionByZero)), || "error of the circuit not reported".into())?;
        // values are not needed for generation
        let mut c = rcirc::<Fp<P>>(g, 1, 2, 3, false);
        let t = trap(g);
        let full = gen(&c, &t);
        c.missing = Some(0);
        ensure(full.ok() == gen(&c, &t).ok(), || "generation depends on witness values".into())?;
        Ok(1)
    });
}
pub fn c15(r: &mut Rep) {
    r.rule = "random circuits (0-4 public inputs, 0-6 private variables, interleaved allocation and constraints, duplicate, zero and cancelling terms) and random, zero and root-of-unity trapdoors over a pairing engine with known discrete logarithms, on pools of 1-8 threads; every parameter compared with the QAP computed from the recorded constraints by Lagrange interpolation".into();
    let p = pools();
    c15_f::<NTT60>(r, "NTT60", 200, &p);
    c15_f::<257>(r, "F257", 40, &p);
    for n in [7usize, 8, 9, 64, 65, 200] {
        r.case(&format!("NTT60 {} constraints", n), |g| {
            let c = rcirc::<Fp<NTT60>>(g, 3, n.min(40), n, false);
            let t = trap(g);
            check_gen(&c, &t).map(|x| x as u64)
        });
    }
    r.case("random generation", |g| {
        let c = rcirc::<Fp<NTT60>>(g, 2, 3, 5, false);
        let p = generate_random_parameters::<E<NTT60>, _, _>(c.clone(), &mut *g).map_err(|e| format!("{:?}", e))?;
        // the trapdoors are independent draws: no two related elements coincide
        let v = [p.vk.alpha_g1.v.0, p.vk.beta_g1.v.0, p.vk.delta_g1.v.0];
        ensure(v[0] != v[1] && v[1] != v[2] && v[0] != v[2] && v.iter().all(|x| *x != 0) && p.vk.gamma_g2 != p.vk.delta_g2 && p.vk.beta_g2 != p.vk.gamma_g2, || "trapdoors coincide".into())?;
        // beta and delta are the same in both groups
        ensure(p.vk.beta_g1.v * p.vk.delta_g2.v == p.vk.beta_g2.v * p.vk.delta_g1.v, || "beta and delta differ between the groups".into())?;
        let q = generate_random_parameters::<E<NTT60>, _, _>(c, &mut *g).map_err(|e| format!("{:?}", e))?;
        ensure(p.vk.alpha_g1 != q.vk.alpha_g1, || "randomness not used".into())?;
        Ok(1)
    });
}
// ------------------------------------------------------------------ C16
/// hands out the parameters and remembers what the prover asked for
struct Watch<'a, const P: u64> {
    p: &'a Parameters<E<P>>,
    log: Vec<(&'static str, usize, usize)>,
}
type B1<const P: u64> = (Arc<Vec<D1<P>>>, usize);
type B2<const P: u64> = (Arc<Vec<D2<P>>>, usize);
impl<'a, 'b, const P: u64> ParameterSource<E<P>> for &'b mut Watch<'a, P> {
    type G1Builder = B1<P>;
    type G2Builder = B2<P>;
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<E<P>>, SynthesisError> {
        self.log.push(("vk", n, 0));
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, n: usize) -> Result<B1<P>, SynthesisError> {
        self.log.push(("h", n, 0));
        Ok((self.p.h.clone(), 0))
    }
    fn get_l(&mut self, n: usize) -> Result<B1<P>, SynthesisError> {
        self.log.push(("l", n, 0));
        Ok((self.p.l.clone(), 0))
    }
    fn get_a(&mut self, i: usize, a: usize) -> Result<(B1<P>, B1<P>), SynthesisError> {
        self.log.push(("a", i, a));
        Ok(((self.p.a.clone(), 0), (self.p.a.clone(), i)))
    }
    fn get_b_g1(&mut self, i: usize, a: usize) -> Result<(B1<P>, B1<P>), SynthesisError> {
        self.log.push(("b_g1", i, a));
        Ok(((self.p.b_g1.clone(), 0), (self.p.b_g1.clone(), i)))
    }
    fn get_b_g2(&mut self, i: usize, a: usize) -> Result<(B2<P>, B2<P>), SynthesisError> {
        self.log.push(("b_g2", i, a));
        Ok(((self.p.b_g2.clone(), 0), (self.p.b_g2.clone(), i)))
    }
}
fn check_prove<const P: u64>(c: &Circ<Fp<P>>, t: &Trap<Fp<P>>, r: Fp<P>, s: Fp<P>) -> Result<bool, String> {
    let tag = |m: String| format!("{} [{}; r {} s {} tau {}]", m, c.desc(), r.0, s.0, t.tau.0);
    let cs = record(c);
    let q = match qap(&cs, t.tau) {
        Some(q) => q,
        None => return Ok(false),
    };
    if q.t.0 == 0 {
        return Ok(false);
    }
    let p = match gen(c, t) {
        Ok(p) => p,
        Err(SynthesisError::UnconstrainedVariable) => return Ok(false),
        Err(e) => return Err(tag(format!("generation: {:?}", e))),
    };
    let z: Vec<Fp<P>> = cs.inputs.iter().chain(&cs.aux).map(|x| x.unwrap()).collect();
    let dot = |f: &dyn Fn(&(Fp<P>, Fp<P>, Fp<P>)) -> Fp<P>| z.iter().zip(&q.uvw).fold(Fp::ZERO, |a, (z, x)| a + *z * f(x));
    let (a, b, o) = (dot(&|x| x.0), dot(&|x| x.1), dot(&|x| x.2));
    let di = t.delta.invert().unwrap();
    let ga = t.alpha + a + r * t.delta;
    let gb = t.beta + b + s * t.delta;
    let aux = z[q.ni..].iter().zip(&q.uvw[q.ni..]).fold(Fp::ZERO, |acc, (z, x)| acc + *z * (t.beta * x.0 + t.alpha * x.1 + x.2));
    let gc = (aux + a * b - o) * di + s * ga + r * gb - r * s * t.delta;
    let want = Proof::<E<P>> { a: D1::of(t.g1 * ga), b: D2::of(t.g2 * gb), c: D1::of(t.g1 * gc) };
    let proof = create_proof::<E<P>, _, _>(c.clone(), &p, r, s).map_err(|e| tag(format!("proof creation failed: {:?}", e)))?;
    ensure(proof == want, || tag(format!("proof is ({}, {}, {}), expected ({}, {}, {})", proof.a.v.0, proof.b.v.0, proof.c.v.0, want.a.v.0, want.b.v.0, want.c.v.0)))?;
    let pvk = prepare_verifying_key(&p.vk);
    ensure(verify_proof(&pvk, &proof, &c.inputs).is_ok(), || tag("the verifier rejects the honest proof".into()))?;
    // what the prover announces to its parameter source
    let mut w = Watch { p: &p, log: vec![] };
    let proof2 = create_proof::<E<P>, _, _>(c.clone(), &mut w, r, s).map_err(|e| tag(format!("{:?}", e)))?;
    ensure(proof2 == want, || tag("another parameter source gives another proof".into()))?;
    let nb_in = q.uvw[..q.ni].iter().filter(|x| x.1 .0 != 0).count();
    let nb_aux = q.uvw[q.ni..].iter().filter(|x| x.1 .0 != 0).count();
    let na_aux = q.uvw[q.ni..].iter().filter(|x| x.0 .0 != 0).count();
    for (k, x, y) in w.log {
        let ok = match k {
            "vk" => x == q.ni,
            "h" => x == q.m - 1,
            "l" => x == z.len() - q.ni,
            "a" => (x, y) == (q.ni, na_aux),
            _ => (x, y) == (nb_in, nb_aux),
        };
        ensure(ok, || tag(format!("the prover asked for {} with counts {} {}", k, x, y)))?;
    }
    Ok(true)
}
fn c16_f<const P: u64>(r: &mut Rep, name: &str) {
    for cancel in [false, true] {
        for k in 0..r.n(60, 1500) {
            r.case(&format!("{} {} {}", name, if cancel { "cancelling terms" } else { "circuit" }, k), |g| {
                let ni = g.next_u32() as usize % 5;
                let na = g.next_u32() as usize % 7;
                let nc = if k % 7 == 0 { g.next_u32() as usize % 150 } else { na + g.next_u32() as usize % 6 };
                let c = rcirc::<Fp<P>>(g, ni, na, nc, cancel);
                let t = trap(g);
                let (x, y) = if k % 5 == 0 { (Fp(0), rf(g)) } else { (rf(g), rf(g)) };
                check_prove(&c, &t, x, y).map(|x| x as u64)
            });
        }
    }
    r.case(&format!("{} empty circuit", name), |g| {
        let c = rcirc::<Fp<P>>(g, 0, 0, 0, false);
        let t = trap(g);
        let (x, y) = (rf(g), rf(g));
        check_prove(&c, &t, x, y).map(|x| x as u64)
    });
    for k in 0..r.n(10, 100) {
        r.case(&format!("{} errors {}", name, k), |g| {
            let (ni, na) = (1 + g.next_u32() as usize % 3, 1 + g.next_u32() as usize % 4);
            let c = rcirc::<Fp<P>>(g, ni, na, na + 3, false);
            let t = trap(g);
            let p = match gen(&c, &t) { Ok(p) => p, Err(_) => return Ok(0) };
            for j in 0..(ni + na) {
                let mut d = c.clone();
                d.missing = Some(j);
                let (x, y) = (rf(g), rf(g));
                match create_proof::<E<P>, _, _>(d, &p, x, y) {
                    Err(SynthesisError::AssignmentMissing) => {}
                    Err(e) => return Err(format!("missing witness {} reported as {:?}", j, e)),
                    Ok(_) => return Err(format!("missing witness {}: a proof was produced", j)),
                }
            }
            let mut d = c.clone();
            d.give_up = true;
            ensure(matches!(create_random_proof::<E<P>, _, _, _>(d, &p, &mut *g), Err(SynthesisError::DivisionByZero)), || "error of the circuit not reported".into())?;
            for z in 0..2 {
                let mut q = p.clone();
                if z == 0 { q.vk.delta_g1 = D1::default() } else { q.vk.delta_g2 = D2::default() }
                ensure(matches!(create_random_proof::<E<P>, _, _, _>(c.clone(), &q, &mut *g), Err(SynthesisError::UnexpectedIdentity)), || "identity delta accepted by the prover".into())?;
            }
            // the blinding is random
            let a = create_random_proof::<E<P>, _, _, _>(c.clone(), &p, &mut *g).map_err(|e| format!("{:?}", e))?;
            let b = create_random_proof::<E<P>, _, _, _>(c.clone(), &p, &mut *g).map_err(|e| format!("{:?}", e))?;
            ensure(a.a != b.a && a.b != b.b && a.c != b.c, || "proofs are not re-randomized".into())?;
            let pvk = prepare_verifying_key(&p.vk);
            for q in [&a, &b] {
                ensure(verify_proof(&pvk, q, &c.inputs).is_ok(), || "random proof rejected".into())?;
            }
            // A and B are blinded independently
            let (ra, sa) = ((a.a.v - b.a.v) * (t.g1 * t.delta).invert().unwrap(), (a.b.v - b.b.v) * (t.g2 * t.delta).invert().unwrap());
            ensure(ra != sa, || "A and B share their blinding".into())?;
            // a witness that violates a constraint gives nothing the verifier accepts
            let mut d = c.clone();
            if let Some(x) = d.aux.first_mut() {
                *x += Fp(1);
                if record(&d).unsatisfied().is_some() {
                    if let Ok(q) = create_random_proof::<E<P>, _, _, _>(d.clone(), &p, &mut *g) {
                        ensure(matches!(verify_proof(&pvk, &q, &d.inputs), Err(VerificationError::InvalidProof)), || "a proof of a false statement was accepted".into())?;
                    }
                }
            }
            Ok(1)
        });
    }
}
pub fn c16(r: &mut Rep) {
    r.rule = "random satisfiable circuits (duplicate, zero and cancelling terms, interleaved allocation) with random trapdoors and blinding over a pairing engine with known discrete logarithms; proof compared with the closed formula and verified; the same over BLS12-381 through random parameters; missing values, failing synthesis, identity delta and violated constraints".into();
    let p = pools();
    c16_f::<NTT60>(r, "NTT60");
    for k in 0..r.n(3, 40) {
        r.case(&format!("BLS12-381 {}", k), |g| {
            let (ni, na) = (g.next_u32() as usize % 4, 1 + g.next_u32() as usize % 4);
            let c = rcirc::<bls12_381::Scalar>(g, ni, na, na + 2, k % 2 == 1);
            let params = match generate_random_parameters::<Bls12, _, _>(c.clone(), &mut *g) { Ok(p) => p, Err(SynthesisError::UnconstrainedVariable) => return Ok(0), Err(e) => return Err(format!("{:?}", e)) };
            let proof = create_random_proof(c.clone(), &params, &mut *g).map_err(|e| format!("{:?} for {}", e, c.desc()))?;
            let pvk = prepare_verifying_key(&params.vk);
            ensure(verify_proof(&pvk, &proof, &c.inputs).is_ok(), || format!("honest proof rejected: {}", c.desc()))?;
            if ni > 0 {
                let mut i = c.inputs.clone();
                i[0] += bls12_381::Scalar::ONE;
                ensure(verify_proof(&pvk, &proof, &i).is_err(), || "other inputs accepted".into())?;
            }
            Ok(1)
        });
    }
}
// ------------------------------------------------------------------ C17
type N = Fp<NTT60>;
fn rvk(g: &mut XorShiftRng, n: usize) -> VerifyingKey<E<NTT60>> {
    let t: Trap<N> = trap(g);
    VerifyingKey {
        alpha_g1: D1::of(t.g1 * t.alpha),
        beta_g1: D1::of(t.g1 * t.beta),
        beta_g2: D2::of(t.g2 * t.beta),
        gamma_g2: D2::of(t.g2 * t.gamma),
        delta_g1: D1::of(t.g1 * t.delta),
        delta_g2: D2::of(t.g2 * t.delta),
        ic: (0..n).map(|_| D1::of(rf(g))).collect(),
    }
}
fn eqn(vk: &VerifyingKey<E<NTT60>>, p: &Proof<E<NTT60>>, x: &[N]) -> N {
    let acc = x.iter().zip(&vk.ic[1..]).fold(vk.ic[0].v, |a, (x, i)| a + i.v * x);
    p.a.v * p.b.v - vk.alpha_g1.v * vk.beta_g2.v - acc * vk.gamma_g2.v - p.c.v * vk.delta_g2.v
}
/// a proof whose equation is off by e
fn forge(g: &mut XorShiftRng, vk: &VerifyingKey<E<NTT60>>, x: &[N], e: N) -> Proof<E<NTT60>> {
    let mut p = Proof { a: D1::of(rf(g)), b: D2::of(rf(g)), c: D1::of(Fp(0)) };
    let d = eqn(vk, &p, x);
    p.c = D1::of((d - e) * vk.delta_g2.v.invert().unwrap());
    assert!(eqn(vk, &p, x) == e);
    p
}
fn nonzero(g: &mut XorShiftRng) -> N {
    loop {
        let x: N = rf(g);
        if x.0 != 0 {
            break x;
        }
    }
}
pub fn c17(r: &mut Rep) {
    r.rule = "random keys, inputs and proofs with known discrete logarithms (zero values and identity points included), proofs solved from the equation and then disturbed in each component, wrong numbers of inputs; BLS12-381 in the same way".into();
    for k in 0..r.n(300, 20000) {
        r.case(&format!("equation {}", k), |g| {
            let n = g.next_u32() as usize % 6;
            let vk = rvk(g, n + 1);
            let x: Vec<N> = (0..n).map(|_| rf(g)).collect();
            let p = forge(g, &vk, &x, Fp(0));
            let pvk = prepare_verifying_key(&vk);
            let run = |p: &Proof<E<NTT60>>, vk: &VerifyingKey<E<NTT60>>, x: &[N]| -> Result<(), String> {
                let pvk = prepare_verifying_key(vk);
                let want = eqn(vk, p, x).0 == 0;
                let got = verify_proof(&pvk, p, x);
                let ok = match got { Ok(()) => want, Err(VerificationError::InvalidProof) => !want, _ => false };
                ensure(ok, || format!("verdict {:?}, the equation holds: {}; vk {:?} proof {:?} inputs {:?}", verify_proof(&pvk, p, x).is_ok(), want, (vk.alpha_g1.v.0, vk.beta_g2.v.0, vk.gamma_g2.v.0, vk.delta_g2.v.0, vk.ic.iter().map(|i| i.v.0).collect::<Vec<_>>()), (p.a.v.0, p.b.v.0, p.c.v.0), x.iter().map(|i| i.0).collect::<Vec<_>>()))
            };
            run(&p, &vk, &x)?;
            let d = nonzero(g);
            run(&Proof { a: D1::of(p.a.v + d), ..p.clone() }, &vk, &x)?;
            run(&Proof { b: D2::of(p.b.v + d), ..p.clone() }, &vk, &x)?;
            run(&Proof { c: D1::of(p.c.v + d), ..p.clone() }, &vk, &x)?;
            run(&Proof { a: D1::of(-p.a.v), ..p.clone() }, &vk, &x)?;
            run(&Proof { a: D1::of(-p.a.v), b: D2::of(-p.b.v), ..p.clone() }, &vk, &x)?;
            run(&Proof { a: D1::of(Fp(0)), ..p.clone() }, &vk, &x)?;
            for i in 0..n {
                let mut y = x.clone();
                y[i] += d;
                run(&p, &vk, &y)?;
                if i > 0 {
                    let mut y = x.clone();
                    y.swap(0, i);
                    run(&p, &vk, &y)?;
                }
            }
            for j in 0..5 {
                let mut w = vk.clone();
                match j {
                    0 => w.alpha_g1.v += d,
                    1 => w.beta_g2.v += d,
                    2 => w.gamma_g2.v += d,
                    3 => w.delta_g2.v += d,
                    _ => { w.beta_g1.v += d; w.delta_g1.v += d }
                }
                run(&p, &w, &x)?;
                let mut w = vk.clone();
                match j {
                    0 => w.alpha_g1.v = Fp(0),
                    1 => w.beta_g2.v = Fp(0),
                    2 => w.gamma_g2.v = Fp(0),
                    3 => w.delta_g2.v = Fp(0),
                    _ => w.ic[0].v = Fp(0),
                }
                run(&p, &w, &x)?;
            }
            // wrong number of inputs, whatever the proof
            for m in 0..(n + 4) {
                if m != n {
                    let mut y = x.clone();
                    y.resize(m, Fp(0));
                    ensure(matches!(verify_proof(&pvk, &p, &y), Err(VerificationError::InvalidVerifyingKey)), || format!("{} inputs for a key with {}", m, n))?;
                }
            }
            let mut w = vk.clone();
            w.ic.clear();
            ensure(matches!(verify_proof(&prepare_verifying_key(&w), &p, &[]), Err(VerificationError::InvalidVerifyingKey)), || "key without inputs".into())?;
            Ok(1)
        });
    }
    for k in 0..r.n(2, 40) {
        r.case(&format!("BLS12-381 {}", k), |g| {
            type S = bls12_381::Scalar;
            use bls12_381::{G1Affine, G2Affine};
            let mut s = || S::random(&mut *g);
            let g1 = |x: S| (G1Affine::generator() * x).to_affine();
            let g2 = |x: S| (G2Affine::generator() * x).to_affine();
            let (al, be, ga, de, a, b) = (s(), s(), s(), s(), s(), s());
            let ic = [s(), s(), s()];
            let x = [s(), s()];
            let c = (a * b - al * be - (ic[0] + ic[1] * x[0] + ic[2] * x[1]) * ga) * de.invert().unwrap();
            let vk = VerifyingKey::<Bls12> { alpha_g1: g1(al), beta_g1: g1(be), beta_g2: g2(be), gamma_g2: g2(ga), delta_g1: g1(de), delta_g2: g2(de), ic: ic.iter().map(|i| g1(*i)).collect() };
            let pvk = prepare_verifying_key(&vk);
            let p = Proof::<Bls12> { a: g1(a), b: g2(b), c: g1(c) };
            ensure(verify_proof(&pvk, &p, &x).is_ok(), || "rejected".into())?;
            ensure(matches!(verify_proof(&pvk, &p, &[x[1], x[0]]), Err(VerificationError::InvalidProof)), || "swapped inputs accepted".into())?;
            for q in [Proof { a: g1(a + S::ONE), ..p.clone() }, Proof { b: g2(b + S::ONE), ..p.clone() }, Proof { c: g1(c + S::ONE), ..p.clone() }, Proof { a: -p.a, ..p.clone() }] {
                ensure(matches!(verify_proof(&pvk, &q, &x), Err(VerificationError::InvalidProof)), || "disturbed proof accepted".into())?;
            }
            ensure(matches!(verify_proof(&pvk, &p, &x[..1]), Err(VerificationError::InvalidVerifyingKey)), || "too few inputs".into())?;
            Ok(1)
        });
    }
}
// ------------------------------------------------------------------ C18
/// a generator that starts with a given number of zero words, then xorshift; or constant
struct Zr {
    zeros: usize,
    g: XorShiftRng,
    constant: Option<u64>,
}
impl RngCore for Zr {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.zeros > 0 {
            self.zeros -= 1;
            return 0;
        }
        self.constant.unwrap_or_else(|| self.g.next_u64())
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Zr {}
fn zr(g: &mut XorShiftRng) -> Zr {
    let zeros = match g.next_u32() % 3 { 0 => 0, _ => g.next_u32() as usize % 7 };
    let constant = if g.next_u32() % 4 == 0 { Some(1 + g.next_u64() % (NTT60 - 1)) } else { None };
    Zr { zeros, g: XorShiftRng::seed_from_u64(g.next_u64()), constant }
}
pub fn c18(r: &mut Rep) {
    r.rule = "batches of 0-40 items over an engine with known discrete logarithms: all valid, one invalid at any position, several invalid with related errors, wrong input counts at any position; random number generators that are constant or start with zeros; also BLS12-381".into();
    use groth16::batch::{Item, Verifier};
    for k in 0..r.n(400, 20000) {
        r.case(&format!("batch {}", k), |g| {
            let n = g.next_u32() as usize % 5;
            let vk = rvk(g, n + 1);
            let pvk = prepare_verifying_key(&vk);
            let len = if k < 12 { k } else { g.next_u32() as usize % 12 };
            let items: Vec<(Proof<E<NTT60>>, Vec<N>)> = (0..len)
                .map(|_| {
                    let x: Vec<N> = (0..n).map(|_| rf(g)).collect();
                    (forge(g, &vk, &x, Fp(0)), x)
                })
                .collect();
            let run = |it: &[(Proof<E<NTT60>>, Vec<N>)], rng: Zr| {
                let mut v = Verifier::<E<NTT60>>::new();
                for (i, (p, x)) in it.iter().enumerate() {
                    if i % 2 == 0 { v.queue((p, &x[..])) } else { v.queue((p.clone(), x.clone())) }
                }
                v.verify(rng, &vk)
            };
            for (p, x) in &items {
                ensure(Item::<E<NTT60>>::from((p, &x[..])).verify_single(&pvk).is_ok(), || "single verification rejects a valid item".into())?;
            }
            ensure(run(&items, zr(g)).is_ok(), || format!("valid batch of {} rejected", len))?;
            for i in 0..len {
                // one invalid item, for every randomness
                let mut bad = items.clone();
                let e = nonzero(g);
                bad[i].0 = forge(g, &vk, &bad[i].1.clone(), e);
                match run(&bad, zr(g)) {
                    Err(VerificationError::InvalidProof) => {}
                    Ok(()) => return Err(format!("batch of {} with invalid item {} accepted", len, i)),
                    _ => return Err("invalid proof misreported".into()),
                }
                ensure(matches!(Item::<E<NTT60>>::from((bad[i].0.clone(), bad[i].1.clone())).verify_single(&pvk), Err(VerificationError::InvalidProof)), || "single".into())?;
                if n > 0 {
                    // a valid item with a disturbed input
                    let mut bad = items.clone();
                    let j = g.next_u32() as usize % n;
                    bad[i].1[j] += nonzero(g);
                    let want = eqn(&vk, &bad[i].0, &bad[i].1).0 == 0;
                    ensure(run(&bad, zr(g)).is_ok() == want, || "disturbed input accepted".into())?;
                }
                // related errors under independent weights
                for j in 0..len {
                    if j != i {
                        for f in [-Fp(1), Fp(1), Fp(2), -Fp(2)] {
                            let mut b2 = bad.clone();
                            b2[j].0 = forge(g, &vk, &b2[j].1.clone(), e * f);
                            let mut rng = zr(g);
                            rng.constant = None;
                            ensure(matches!(run(&b2, rng), Err(VerificationError::InvalidProof)), || format!("invalid items {} and {} cancel", i, j))?;
                        }
                        // swapped proofs
                        let mut b3 = items.clone();
                        b3[i].0 = items[j].0.clone();
                        b3[j].0 = items[i].0.clone();
                        let mut rng = zr(g);
                        rng.constant = None;
                        let want = eqn(&vk, &b3[i].0, &b3[i].1).0 == 0 && eqn(&vk, &b3[j].0, &b3[j].1).0 == 0;
                        ensure(run(&b3, rng).is_ok() == want, || format!("swapped proofs {} and {} accepted", i, j))?;
                    }
                }
                for m in [0, n.wrapping_sub(1), n + 1, n + 5] {
                    if m != n && m < 20 {
                        let mut bad = items.clone();
                        bad[i].1.resize(m, Fp(0));
                        ensure(matches!(run(&bad, zr(g)), Err(VerificationError::InvalidVerifyingKey)), || format!("item with {} inputs for a key with {}", m, n))?;
                    }
                }
            }
            Ok(1)
        });
    }
    r.case("BLS12-381", |g| {
        let c = rcirc::<bls12_381::Scalar>(g, 2, 3, 5, false);
        let params = generate_random_parameters::<Bls12, _, _>(c.clone(), &mut *g).map_err(|e| format!("{:?}", e))?;
        let pvk = prepare_verifying_key(&params.vk);
        let ps: Vec<Proof<Bls12>> = (0..3).map(|_| create_random_proof(c.clone(), &params, &mut *g).unwrap()).collect();
        let run = |x: &[Vec<bls12_381::Scalar>], g: &mut XorShiftRng| {
            let mut v = Verifier::<Bls12>::new();
            for (p, x) in ps.iter().zip(x) {
                v.queue((p, &x[..]));
            }
            v.verify(zr(g), &params.vk)
        };
        let mut x = vec![c.inputs.clone(); 3];
        ensure(run(&x, g).is_ok(), || "valid batch rejected".into())?;
        for i in 0..3 {
            x[i][1] += bls12_381::Scalar::ONE;
            ensure(verify_proof(&pvk, &ps[i], &x[i]).is_err() && run(&x, g).is_err(), || "invalid batch accepted".into())?;
            x[i][1] -= bls12_381::Scalar::ONE;
        }
        Ok(1)
    });
}
// ------------------------------------------------------------------ C19
fn e1<G: UncompressedEncoding>(v: &[G], o: &mut Vec<u8>) {
    for x in v {
        o.extend(x.to_uncompressed().as_ref());
    }
}
fn vk_bytes<X: MultiMillerLoop>(k: &VerifyingKey<X>) -> Vec<u8> {
    let mut o = vec![];
    e1(&[k.alpha_g1, k.beta_g1], &mut o);
    e1(&[k.beta_g2, k.gamma_g2], &mut o);
    e1(&[k.delta_g1], &mut o);
    e1(&[k.delta_g2], &mut o);
    o.extend((k.ic.len() as u32).to_be_bytes());
    e1(&k.ic, &mut o);
    o
}
fn par_bytes<X: MultiMillerLoop>(p: &Parameters<X>) -> Vec<u8> {
    let mut o = vk_bytes(&p.vk);
    for v in [&p.h, &p.l, &p.a, &p.b_g1] {
        o.extend((v.len() as u32).to_be_bytes());
        e1(v, &mut o);
    }
    o.extend((p.b_g2.len() as u32).to_be_bytes());
    e1(&p.b_g2, &mut o);
    o
}
/// a writer that takes a few bytes at a time and may fail after a while
struct Slow(Vec<u8>, usize, Option<usize>);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.1);
        if let Some(k) = self.2 {
            n = n.min(k - self.0.len());
            if n == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
        }
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// a reader that hands out a few bytes at a time
struct Drip<'a>(&'a [u8], usize, usize);
impl<'a> std::io::Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.2).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn rr(x: std::io::Result<usize>) -> Option<usize> {
    x.ok()
}
/// round trip, exact consumption, truncation, short writes
fn format<T: PartialEq>(name: &str, g: &mut XorShiftRng, x: &T, want: &[u8], cuts: usize, write: &dyn Fn(&T, &mut dyn std::io::Write) -> std::io::Result<()>, read: &dyn Fn(&mut dyn std::io::Read) -> std::io::Result<T>) -> Result<u64, String> {
    let mut o = vec![];
    write(x, &mut o).map_err(|e| format!("{}: write failed {}", name, e))?;
    ensure(o == want, || format!("{}: written bytes are not the fields in order (at offset {})", name, o.iter().zip(want).position(|(a, b)| a != b).unwrap_or(o.len().min(want.len()))))?;
    let mut s = Slow(vec![], 1 + g.next_u32() as usize % 5, None);
    write(x, &mut s).map_err(|e| format!("{}: {}", name, e))?;
    ensure(s.0 == want, || format!("{}: short writes lose data", name))?;
    for _ in 0..5 {
        let mut s = Slow(vec![], 1 + g.next_u32() as usize % 9, Some(g.next_u32() as usize % want.len()));
        ensure(write(x, &mut s).is_err(), || format!("{}: a failing writer is not reported", name))?;
    }
    o.extend([0xaa; 40]);
    for step in [1usize, 3, 7, 1 << 20] {
        let mut d = Drip(&o, 0, step);
        let y = read(&mut d).map_err(|e| format!("{}: reading back failed: {}", name, e))?;
        ensure(y == *x, || format!("{}: value changed by a round trip", name))?;
        ensure(d.1 == want.len(), || format!("{}: consumed {} of {} bytes", name, d.1, want.len()))?;
    }
    for k in 0..want.len() {
        if want.len() <= cuts || k < 40 || k + 40 >= want.len() || g.next_u32() as usize % want.len() < cuts {
            let mut d = Drip(&want[..k], 0, 1 << 20);
            ensure(read(&mut d).is_err(), || format!("{}: accepted after truncation to {} of {} bytes", name, k, want.len()))?;
        }
    }
    Ok(1)
}
fn dummy_params(g: &mut XorShiftRng, n: usize) -> Parameters<E<NTT60>> {
    let mut vk = rvk(g, n);
    for x in vk.ic.iter_mut() {
        x.v = nonzero(g);
    }
    let mut v1 = |g: &mut XorShiftRng, n: usize| Arc::new((0..n).map(|_| D1::of(nonzero(g))).collect::<Vec<_>>());
    let k = g.next_u32() as usize % 5;
    let (h, l, a, b) = (v1(g, n + k), v1(g, k), v1(g, n + 1), v1(g, (n + k) / 2));
    let b2 = Arc::new((0..(n + k) / 2).map(|_| D2::of(nonzero(g))).collect::<Vec<_>>());
    Parameters { vk, h, l, a, b_g1: b, b_g2: b2 }
}
pub fn c19(r: &mut Rep) {
    r.rule = "random proofs, keys and parameter sets (empty lists included) over an engine with known encodings and BLS12-381: exact bytes, round trip with short reads and writes, exact consumption, every truncation, every single-byte corruption, every point replaced by infinity or by a point outside the group, checked and unchecked".into();
    for k in 0..r.n(25, 1000) {
        r.case(&format!("dummy {}", k), |g| {
            type X = E<NTT60>;
            let n = g.next_u32() as usize % 4;
            let par = dummy_params(g, n);
            let proof = Proof::<X> { a: D1::of(nonzero(g)), b: D2::of(nonzero(g)), c: D1::of(nonzero(g)) };
            let mut pb = vec![];
            pb.extend(proof.a.to_bytes());
            pb.extend(proof.b.to_bytes());
            pb.extend(proof.c.to_bytes());
            let rp = |r: &mut dyn std::io::Read| Proof::<X>::read(r);
            let rv = |r: &mut dyn std::io::Read| VerifyingKey::<X>::read(r);
            let rc = |r: &mut dyn std::io::Read| Parameters::<X>::read(r, true);
            let ru = |r: &mut dyn std::io::Read| Parameters::<X>::read(r, false);
            let wp = |x: &Proof<X>, w: &mut dyn std::io::Write| x.write(w);
            let wv = |x: &VerifyingKey<X>, w: &mut dyn std::io::Write| x.write(w);
            let wr = |x: &Parameters<X>, w: &mut dyn std::io::Write| x.write(w);
            let (vb, rb) = (vk_bytes(&par.vk), par_bytes(&par));
            let mut c = format("proof", g, &proof, &pb, 4000, &wp, &rp)?;
            c += format("verifying key", g, &par.vk, &vb, 4000, &wv, &rv)?;
            c += format("parameters (checked)", g, &par, &rb, 4000, &wr, &rc)?;
            c += format("parameters (unchecked)", g, &par, &rb, 4000, &wr, &ru)?;
            // corruption of any byte: an error, or a canonical encoding of the value returned
            let canon_p = |b: &[u8]| -> Option<Option<(Vec<u8>, bool)>> {
                let mut r = b;
                Proof::<X>::read(&mut r).ok().map(|p| {
                    let mut o = vec![];
                    p.write(&mut o).unwrap();
                    Some((o, p.a.bad || p.b.bad || p.c.bad || bool::from(Group::is_identity(&p.a)) || bool::from(Group::is_identity(&p.b)) || bool::from(Group::is_identity(&p.c))))
                })
            };
            for i in 0..pb.len() {
                for x in [1u8, 0x80, 0x10, 0xff] {
                    let mut b = pb.clone();
                    b[i] ^= x;
                    if let Some(Some((o, bad))) = canon_p(&b) {
                        ensure(o == b && !bad, || format!("proof with byte {} changed by {:02x} read as something else", i, x))?;
                    }
                }
            }
            let vkbad = |k: &VerifyingKey<X>| k.alpha_g1.bad || k.beta_g1.bad || k.delta_g1.bad || k.beta_g2.bad || k.gamma_g2.bad || k.delta_g2.bad || k.ic.iter().any(|x| x.bad || x.v.0 == 0);
            for i in 0..vb.len() {
                for x in [1u8, 0x80, 0x10] {
                    let mut b = vb.clone();
                    b[i] ^= x;
                    let mut rd = &b[..];
                    if let Ok(kk) = VerifyingKey::<X>::read(&mut rd) {
                        let used = b.len() - rd.len();
                        ensure(vk_bytes(&kk) == b[..used] && !vkbad(&kk), || format!("key with byte {} changed by {:02x} read as something else", i, x))?;
                    }
                }
            }
            for i in 0..rb.len() {
                for x in [1u8, 0x80, 0x10] {
                    let mut b = rb.clone();
                    b[i] ^= x;
                    for checked in [true, false] {
                        let mut rd = &b[..];
                        if let Ok(q) = Parameters::<X>::read(&mut rd, checked) {
                            let used = b.len() - rd.len();
                            let lists = || [&q.h, &q.l, &q.a, &q.b_g1].iter().flat_map(|v| v.iter().cloned()).collect::<Vec<_>>();
                            let zero = lists().iter().any(|x| bool::from(Group::is_identity(x))) || q.b_g2.iter().any(|x| bool::from(Group::is_identity(x)));
                            let out = lists().iter().any(|x| x.bad) || q.b_g2.iter().any(|x| x.bad);
                            ensure(par_bytes(&q) == b[..used] && !vkbad(&q.vk) && !zero && !(checked && out), || format!("parameters (checked {}) with byte {} changed by {:02x} read as something else", checked, i, x))?;
                        }
                    }
                }
            }
            // every point replaced by infinity, or by a point outside the group
            for bad in [false, true] {
                let b1 = D1::<NTT60> { v: if bad { nonzero(g) } else { Fp(0) }, bad };
                let b2 = D2::<NTT60> { v: if bad { nonzero(g) } else { Fp(0) }, bad };
                for i in 0..3 {
                    let mut q = proof.clone();
                    match i { 0 => q.a = b1, 1 => q.b = b2, _ => q.c = b1 }
                    let mut o = vec![];
                    q.write(&mut o).unwrap();
                    ensure(Proof::<X>::read(&o[..]).is_err(), || format!("proof point {} {} accepted", i, if bad { "outside the group" } else { "at infinity" }))?;
                }
                for i in 0..(6 + n) {
                    let mut q = par.vk.clone();
                    match i { 0 => q.alpha_g1 = b1, 1 => q.beta_g1 = b1, 2 => q.beta_g2 = b2, 3 => q.gamma_g2 = b2, 4 => q.delta_g1 = b1, 5 => q.delta_g2 = b2, j => q.ic[j - 6] = b1 }
                    let o = vk_bytes(&q);
                    if bad || i >= 6 {
                        ensure(VerifyingKey::<X>::read(&o[..]).is_err(), || format!("key point {} {} accepted", i, if bad { "outside the group" } else { "at infinity" }))?;
                        let mut p2 = par.clone();
                        p2.vk = q;
                        for checked in [true, false] {
                            ensure(Parameters::<X>::read(&par_bytes(&p2)[..], checked).is_err(), || format!("parameters with key point {} bad accepted", i))?;
                        }
                    }
                }
                for list in 0..5 {
                    let len = match list { 0 => par.h.len(), 1 => par.l.len(), 2 => par.a.len(), 3 => par.b_g1.len(), _ => par.b_g2.len() };
                    for j in 0..len {
                        let mut q = par.clone();
                        match list {
                            0 => Arc::make_mut(&mut q.h)[j] = b1,
                            1 => Arc::make_mut(&mut q.l)[j] = b1,
                            2 => Arc::make_mut(&mut q.a)[j] = b1,
                            3 => Arc::make_mut(&mut q.b_g1)[j] = b1,
                            _ => Arc::make_mut(&mut q.b_g2)[j] = b2,
                        }
                        let o = par_bytes(&q);
                        ensure(Parameters::<X>::read(&o[..], true).is_err(), || format!("list {} element {} {} accepted by checked reading", list, j, if bad { "outside the group" } else { "at infinity" }))?;
                        let u = Parameters::<X>::read(&o[..], false);
                        if bad {
                            ensure(u.map_or(false, |u| u == q), || "unchecked reading does not return what was written".into())?;
                        } else {
                            ensure(u.is_err(), || format!("list {} element {} at infinity accepted by unchecked reading", list, j))?;
                        }
                    }
                }
            }
            // a length that the stream does not hold
            let off = vb.len() - n * 11 - 4;
            for c in [n as u32 + 1, n as u32 + 1000, u32::MAX] {
                let mut b = vb.clone();
                b[off..off + 4].copy_from_slice(&c.to_be_bytes());
                ensure(VerifyingKey::<X>::read(&b[..]).is_err(), || "key with an over-long list accepted".into())?;
            }
            Ok(c)
        });
    }
    for k in 0..r.n(1, 6) {
        r.case(&format!("BLS12-381 {}", k), |g| {
            type X = Bls12;
            let c = rcirc::<bls12_381::Scalar>(g, 2, 3, 5, false);
            let par = generate_random_parameters::<X, _, _>(c.clone(), &mut *g).map_err(|e| format!("{:?}", e))?;
            let proof = create_random_proof(c, &par, &mut *g).map_err(|e| format!("{:?}", e))?;
            let mut pb = vec![];
            pb.extend(proof.a.to_bytes().as_ref() as &[u8]);
            pb.extend(proof.b.to_bytes().as_ref() as &[u8]);
            pb.extend(proof.c.to_bytes().as_ref() as &[u8]);
            let mut n = format("proof", g, &proof, &pb, 20, &|x, w| x.write(w), &|r| Proof::<X>::read(r))?;
            n += format("verifying key", g, &par.vk, &vk_bytes(&par.vk), 20, &|x, w| x.write(w), &|r| VerifyingKey::<X>::read(r))?;
            n += format("parameters (checked)", g, &par, &par_bytes(&par), 20, &|x, w| x.write(w), &|r| Parameters::<X>::read(r, true))?;
            n += format("parameters (unchecked)", g, &par, &par_bytes(&par), 20, &|x, w| x.write(w), &|r| Parameters::<X>::read(r, false))?;
            let _ = rr;
            for i in 0..3 {
                let mut q = proof.clone();
                match i { 0 => q.a = <X as Engine>::G1Affine::identity(), 1 => q.b = <X as Engine>::G2Affine::identity(), _ => q.c = <X as Engine>::G1Affine::identity() }
                let mut o = vec![];
                q.write(&mut o).unwrap();
                ensure(Proof::<X>::read(&o[..]).is_err(), || "infinity accepted".into())?;
            }
            Ok(n)
        });
    }
}
#[allow(dead_code)]
fn _unused<F: PrimeFieldBits>(_: F) {}
