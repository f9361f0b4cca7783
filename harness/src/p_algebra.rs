//! C11 (evaluation domains), C12 (multi-exponentiation), C13 (query density)
use crate::engine::*;
use crate::fp::*;
use crate::p_gadgets::{rf, Bls};
use crate::report::*;
use crate::solver::hexf;
use bellman::domain::{EvaluationDomain, Point, Scalar};
use bellman::multicore::Worker;
use bellman::multiexp::*;
use bellman::SynthesisError;
use ff::{PrimeField, PrimeFieldBits};
use group::prime::{PrimeCurve, PrimeCurveAffine};
use group::{Curve, Group};
use rand_core::RngCore;
use std::sync::Arc;

pub fn pools() -> Vec<rayon::ThreadPool> {
    [1usize, 2, 3, 4, 5, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).panic_handler(|_| {}).build().unwrap()).collect()
}
fn horner<F: PrimeField>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |a, k| a * x + k)
}
fn dom<F: PrimeField>(c: &[F]) -> Result<EvaluationDomain<F, Scalar<F>>, SynthesisError> {
    EvaluationDomain::from_coeffs(c.iter().map(|x| Scalar(*x)).collect())
}
fn raw<F: PrimeField>(d: &EvaluationDomain<F, Scalar<F>>) -> Vec<F> {
    d.as_ref().iter().map(|x| x.0).collect()
}
fn show<F: PrimeField>(c: &[F]) -> String {
    let s: Vec<String> = c.iter().take(10).map(hexf).collect();
    format!("[{}{}]", s.join(","), if c.len() > 10 { ",.." } else { "" })
}
fn eqv<F: PrimeField>(a: &[F], b: &[F], w: impl Fn() -> String) -> Result<(), String> {
    ensure(a == b, || {
        let k = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap();
        format!("{}: position {} is {}, expected {} (got {}, expected {})", w(), k, a.get(k).map_or("absent".into(), hexf), b.get(k).map_or("absent".into(), hexf), show(a), show(b))
    })
}
fn c11_f<F: PrimeField>(r: &mut Rep, f: &str, pools: &[rayon::ThreadPool], lens: &[usize]) {
    let max = if F::S >= 20 { usize::MAX } else { 1usize << (F::S - 1) };
    for &len in lens {
        for (pi, pool) in pools.iter().enumerate() {
            if len > max {
                continue;
            }
            r.case(&format!("{} length {} threads {}", f, len, pool.current_num_threads()), |rng| {
                let mut n = 1;
                while n < len {
                    n *= 2;
                }
                let w = Worker::new();
                let g = F::MULTIPLICATIVE_GENERATOR;
                let c: Vec<F> = (0..len).map(|_| rf(&mut *rng)).collect();
                let c2: Vec<F> = (0..len).map(|_| rf(&mut *rng)).collect();
                let mut pad = c.clone();
                pad.resize(n, F::ZERO);
                let mut pad2 = c2.clone();
                pad2.resize(n, F::ZERO);
                let tag = |s: &str| format!("{} of {} with {} threads", s, show(&c), pool.current_num_threads());
                let mk = |c: &[F]| dom(c).map_err(|e| format!("from_coeffs({} elements): {:?}", c.len(), e));
                let d = mk(&c)?;
                eqv(&raw(&d), &pad, || tag("from_coeffs"))?;
                ensure(d.into_coeffs().len() == n, || "into_coeffs".into())?;
                // the points, from the transform of X
                let mut omega = F::ONE;
                if n > 1 {
                    let mut x = vec![F::ZERO; n];
                    x[1] = F::ONE;
                    let mut d = mk(&x)?;
                    pool.install(|| d.fft(&w));
                    omega = raw(&d)[1];
                    ensure(omega.pow_vartime([n as u64 / 2]) == -F::ONE, || format!("{} is not a primitive {}-th root of unity", hexf(&omega), n))?;
                }
                let pts: Vec<F> = (0..n).map(|i| omega.pow_vartime([i as u64])).collect();
                let ev: Vec<F> = pts.iter().map(|x| horner(&c, *x)).collect();
                let cev: Vec<F> = pts.iter().map(|x| horner(&c, g * x)).collect();
                let run = |d: &mut EvaluationDomain<F, Scalar<F>>, op: &str| pool.install(|| match op {
                    "fft" => d.fft(&w),
                    "ifft" => d.ifft(&w),
                    "coset_fft" => d.coset_fft(&w),
                    "icoset_fft" => d.icoset_fft(&w),
                    _ => d.divide_by_z_on_coset(&w),
                });
                let mut d = mk(&c)?;
                run(&mut d, "fft");
                eqv(&raw(&d), &ev, || tag("fft"))?;
                run(&mut d, "ifft");
                eqv(&raw(&d), &pad, || tag("ifft after fft"))?;
                let mut d = mk(&c)?;
                run(&mut d, "coset_fft");
                eqv(&raw(&d), &cev, || tag("coset_fft"))?;
                run(&mut d, "icoset_fft");
                eqv(&raw(&d), &pad, || tag("icoset_fft after coset_fft"))?;
                let mut d = mk(&c)?;
                run(&mut d, "ifft");
                let inter = raw(&d);
                eqv(&pts.iter().map(|x| horner(&inter, *x)).collect::<Vec<_>>(), &pad, || tag("interpolation by ifft"))?;
                run(&mut d, "fft");
                eqv(&raw(&d), &pad, || tag("fft after ifft"))?;
                let mut d = mk(&c)?;
                run(&mut d, "icoset_fft");
                let inter = raw(&d);
                eqv(&pts.iter().map(|x| horner(&inter, g * x)).collect::<Vec<_>>(), &pad, || tag("interpolation by icoset_fft"))?;
                // scaling
                for s in [F::ZERO, F::ONE, g, rf(&mut *rng), F::random(&mut *rng)] {
                    let mut d = mk(&c)?;
                    pool.install(|| d.distribute_powers(&w, s));
                    let want: Vec<F> = pad.iter().enumerate().map(|(i, x)| *x * s.pow_vartime([i as u64])).collect();
                    eqv(&raw(&d), &want, || tag("distribute_powers"))?;
                }
                // z
                let d = mk(&c)?;
                for t in [F::ZERO, F::ONE, g, omega, F::random(&mut *rng), rf(&mut *rng)] {
                    ensure(d.z(&t) == t.pow_vartime([n as u64]) - F::ONE, || format!("z({}) is {}", hexf(&t), hexf(&d.z(&t))))?;
                }
                let zg = g.pow_vartime([n as u64]) - F::ONE;
                if !zg.is_zero_vartime() {
                    let mut d = mk(&c)?;
                    run(&mut d, "divide");
                    eqv(&raw(&d).iter().map(|x| *x * zg).collect::<Vec<_>>(), &pad, || tag("divide_by_z_on_coset"))?;
                }
                // pointwise
                let b = mk(&c2)?;
                let mut d = mk(&c)?;
                pool.install(|| d.mul_assign(&w, &b));
                eqv(&raw(&d), &pad.iter().zip(&pad2).map(|(x, y)| *x * y).collect::<Vec<_>>(), || tag("mul_assign"))?;
                let mut d = mk(&c)?;
                pool.install(|| d.sub_assign(&w, &b));
                eqv(&raw(&d), &pad.iter().zip(&pad2).map(|(x, y)| *x - y).collect::<Vec<_>>(), || tag("sub_assign"))?;
                if pi == 0 && 2 * n <= max.min(1 << 20) {
                    let big = mk(&vec![F::ONE; 2 * n])?;
                    ensure(panics(|| { let mut d = mk(&c).unwrap(); d.mul_assign(&w, &big); }), || "mul_assign of different sizes".into())?;
                    ensure(panics(|| { let mut d = mk(&c).unwrap(); d.sub_assign(&w, &big); }), || "sub_assign of different sizes".into())?;
                    // products of polynomials
                    let (mut x, mut y) = (c.clone(), c2.clone());
                    x.resize(2 * n, F::ZERO);
                    y.resize(2 * n, F::ZERO);
                    let (mut x, mut y) = (mk(&x)?, mk(&y)?);
                    x.fft(&w);
                    y.fft(&w);
                    x.mul_assign(&w, &y);
                    x.ifft(&w);
                    let mut want = vec![F::ZERO; 2 * n];
                    for i in 0..len {
                        for j in 0..len {
                            want[i + j] += c[i] * c2[j];
                        }
                    }
                    eqv(&raw(&x), &want, || tag("polynomial product"))?;
                }
                Ok(1)
            });
        }
    }
    if F::S < 12 {
        for len in [max, max + 1, 2 * max, 2 * max + 1, 4 * max, 4 * max + 3] {
            r.case(&format!("{} size limit {}", f, len), |_| {
                match dom(&vec![F::ONE; len]) {
                    Ok(d) => ensure(len <= 2 * max && raw(&d).len() == len.next_power_of_two(), || format!("{} coefficients accepted with two-adicity {}", len, F::S))?,
                    Err(SynthesisError::PolynomialDegreeTooLarge) => ensure(len > max, || format!("{} coefficients rejected with two-adicity {}", len, F::S))?,
                    Err(e) => return Err(format!("over-long vector reported as {:?}", e)),
                }
                Ok(1)
            });
        }
    }
}
fn c11_points(r: &mut Rep, pools: &[rayon::ThreadPool]) {
    type G = D1<NTT60>;
    type S = Fp<NTT60>;
    for n in [1usize, 2, 3, 4, 8, 9, 30, 65] {
        for pool in pools {
            r.case(&format!("points {} threads {}", n, pool.current_num_threads()), |rng| {
                let w = Worker::new();
                let c: Vec<S> = (0..n).map(|_| rf(&mut *rng)).collect();
                let c2: Vec<S> = (0..n).map(|_| rf(&mut *rng)).collect();
                let gp = |c: &[S]| -> EvaluationDomain<S, Point<G>> { EvaluationDomain::from_coeffs(c.iter().map(|x| Point(<G as Group>::generator() * x)).collect()).unwrap() };
                let same = |d: &EvaluationDomain<S, Point<G>>, e: &EvaluationDomain<S, Scalar<S>>, w: &str| {
                    let ok = d.as_ref().len() == e.as_ref().len() && d.as_ref().iter().zip(e.as_ref()).all(|(p, s)| p.0 == <G as Group>::generator() * s.0);
                    ensure(ok, || format!("{} on points differs from {} on their exponents", w, w))
                };
                let (mut p, mut s) = (gp(&c), dom(&c).unwrap());
                same(&p, &s, "from_coeffs")?;
                pool.install(|| { p.coset_fft(&w); s.coset_fft(&w) });
                same(&p, &s, "coset_fft")?;
                pool.install(|| { p.divide_by_z_on_coset(&w); s.divide_by_z_on_coset(&w) });
                same(&p, &s, "division")?;
                pool.install(|| { p.mul_assign(&w, &dom(&c2).unwrap()); s.mul_assign(&w, &dom(&c2).unwrap()) });
                same(&p, &s, "product")?;
                pool.install(|| { p.sub_assign(&w, &gp(&c2)); s.sub_assign(&w, &dom(&c2).unwrap()) });
                same(&p, &s, "difference")?;
                pool.install(|| { p.icoset_fft(&w); s.icoset_fft(&w) });
                same(&p, &s, "icoset_fft")?;
                Ok(1)
            });
        }
    }
}
pub fn c11(r: &mut Rep) {
    r.rule = "coefficient vectors of every length to 40 and around powers of two, special and random values, thread pools of 1,2,3,4,5,8; each transform compared with evaluation at every point by Horner's rule and with interpolation; points compared with their exponents".into();
    let pools = pools();
    let small: Vec<usize> = (0..=40).collect();
    let mut mid = vec![0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
    if r.thorough {
        mid.extend([511, 512, 513, 1000, 1024, 1025, 2048]);
    }
    c11_f::<Fp<17>>(r, "F17", &pools, &small);
    c11_f::<Fp<97>>(r, "F97", &pools, &small);
    c11_f::<Fp<13>>(r, "F13", &pools, &small);
    c11_f::<Fp<257>>(r, "F257", &pools, &mid);
    c11_f::<Fp<12289>>(r, "F12289", &pools, &mid);
    c11_f::<Fp<GOLD>>(r, "Gold", &pools, &mid);
    c11_f::<Bls>(r, "Bls", &pools, &mid);
    c11_points(r, &pools);
}

// ---------------------------------------------------------------- C12
fn special<F: PrimeFieldBits>(r: &mut dyn RngCore) -> F {
    let mut r = r;
    match r.next_u32() % 10 {
        0 | 1 => F::ZERO,
        2 | 3 => F::ONE,
        4 => -F::ONE,
        5 => F::from(2).pow_vartime([(r.next_u32() % F::NUM_BITS) as u64]),
        6 => F::from(2).pow_vartime([(r.next_u32() % F::NUM_BITS) as u64]) - F::ONE,
        7 => F::from((r.next_u32() % 20) as u64),
        _ => F::random(&mut r),
    }
}
enum Want<G> {
    Sum(G),
    Eof,
    Identity,
    Either,
}
fn oracle<G: PrimeCurve>(bases: &[G::Affine], start: usize, dens: Option<&[bool]>, exps: &[G::Scalar]) -> Want<G> {
    let mut acc = G::identity();
    let mut k = start;
    let (mut eof, mut id) = (false, false);
    for (i, e) in exps.iter().enumerate() {
        if !dens.map_or(true, |d| d[i]) {
            continue;
        }
        if k >= bases.len() {
            eof = true;
            break;
        }
        let z = ff::Field::is_zero_vartime(e);
        if !z {
            if bool::from(bases[k].is_identity()) {
                id = true;
            }
            acc += bases[k] * e;
        }
        k += 1;
    }
    match (eof, id) {
        (false, false) => Want::Sum(acc),
        (true, false) => Want::Eof,
        (false, true) => Want::Identity,
        _ => Want::Either,
    }
}
fn c12_g<G: PrimeCurve>(r: &mut Rep, f: &str, pools: &[rayon::ThreadPool], counts: &[usize], reps: usize)
where
    G::Scalar: PrimeFieldBits,
{
    for &n in counts {
        for k in 0..reps {
            r.case(&format!("{} {} terms, run {}", f, n, k), |rng| {
                let exps: Vec<G::Scalar> = (0..n).map(|_| if k % 4 == 3 { G::Scalar::from(1u64 + (rng.next_u32() % 2) as u64) } else { special(rng) }).collect();
                let dens: Option<Vec<bool>> = match k % 3 {
                    0 => None,
                    1 => Some((0..n).map(|_| rng.next_u32() % 2 == 0).collect()),
                    _ => Some((0..n).map(|_| rng.next_u32() % 5 != 0).collect()),
                };
                let start = (rng.next_u32() % 4) as usize;
                let need = dens.as_ref().map_or(n, |d| d.iter().filter(|x| **x).count());
                let total = start + need;
                let len = match rng.next_u32() % 6 {
                    0 => total + 3,
                    1 if total > 0 => total - 1,
                    2 if total > 0 => (rng.next_u32() as usize) % (total + 1),
                    _ => total,
                };
                let mut bases: Vec<G::Affine> = (0..len).map(|_| loop {
                    let p = G::random(&mut *rng);
                    if !bool::from(p.is_identity()) {
                        break p.to_affine();
                    }
                }).collect::<Vec<_>>();
                // identities: before the start, at unselected/zero positions, and sometimes where it matters
                for b in bases.iter_mut().take(start) {
                    *b = G::Affine::identity();
                }
                let mut pos = start;
                let evil = rng.next_u32() % 4 == 0;
                for i in 0..n {
                    if dens.as_ref().map_or(true, |d| d[i]) {
                        if pos < len && (ff::Field::is_zero_vartime(&exps[i]) && rng.next_u32() % 2 == 0 || evil && rng.next_u32() as usize % n.max(1) == 0) {
                            bases[pos] = G::Affine::identity();
                        }
                        pos += 1;
                    }
                }
                let want = oracle::<G>(&bases, start, dens.as_deref(), &exps);
                let bases = Arc::new(bases);
                let bits = || Arc::new(exps.iter().map(|e| e.into()).collect::<Vec<Exponent<G::Scalar>>>());
                let tracker = dens.as_ref().map(|d| {
                    let mut t = DensityTracker::new();
                    for (i, x) in d.iter().enumerate() {
                        t.add_element();
                        if *x {
                            t.inc(i);
                        }
                    }
                    Arc::new(t)
                });
                for pool in pools {
                    let w = Worker::new();
                    let waiter = pool.install(|| match &tracker {
                        None => multiexp::<_, _, G, _>(&w, (bases.clone(), start), FullDensity, bits()),
                        Some(t) => multiexp::<_, _, G, _>(&w, (bases.clone(), start), t.clone(), bits()),
                    });
                    let got = waiter.wait();
                    let ctx = || format!("{} exponents {}, density {:?}, {} bases from {}, {} threads", n, show(&exps), dens.as_ref().map(|d| d.iter().map(|b| *b as u8).take(16).collect::<Vec<_>>()), bases.len(), start, pool.current_num_threads());
                    match (&want, got) {
                        (Want::Sum(s), Ok(g)) => ensure(*s == g, || format!("wrong sum: {}", ctx()))?,
                        (Want::Sum(_), Err(e)) => return Err(format!("unexpected error {:?}: {}", e, ctx())),
                        (_, Ok(_)) => return Err(format!("a point although an error is due: {}", ctx())),
                        (Want::Eof, Err(SynthesisError::IoError(_))) | (Want::Identity, Err(SynthesisError::UnexpectedIdentity)) => {}
                        (Want::Either, Err(SynthesisError::IoError(_))) | (Want::Either, Err(SynthesisError::UnexpectedIdentity)) => {}
                        (_, Err(e)) => return Err(format!("wrong error {:?}: {}", e, ctx())),
                    }
                }
                Ok(1)
            });
        }
    }
    // every single exponent value of a small field, one term
    if <G::Scalar as PrimeField>::NUM_BITS <= 8 {
        r.case(&format!("{} single exponents", f), |_| {
            let w = Worker::new();
            let mut e = G::Scalar::from(0u64);
            let mut cnt = 0;
            loop {
                let b = Arc::new(vec![G::generator().to_affine()]);
                let got = multiexp::<_, _, G, _>(&w, (b, 0), FullDensity, Arc::new(vec![(&e).into()])).wait().map_err(|x| format!("{:?}", x))?;
                ensure(got == G::generator() * e, || format!("exponent {}", hexf(&e)))?;
                e += G::Scalar::from(1u64);
                cnt += 1;
                if ff::Field::is_zero_vartime(&e) {
                    break;
                }
            }
            Ok(cnt)
        });
    }
    // the base source itself
    for k in 0..40 {
        r.case(&format!("{} source {}", f, k), |rng| {
            let len = (rng.next_u32() % 9) as usize;
            let v: Vec<G::Affine> = (0..len).map(|_| if rng.next_u32() % 5 == 0 { G::Affine::identity() } else { (G::generator() * G::Scalar::from(1u64 + rng.next_u64() % 1000)).to_affine() }).collect();
            let mut pos = (rng.next_u32() as usize) % (len + 1);
            let mut s = SourceBuilder::<G::Affine>::build((Arc::new(v.clone()), pos));
            for _ in 0..14 {
                if rng.next_u32() % 3 == 0 {
                    let amt = 1 + (rng.next_u32() % 2) as usize;
                    let r = s.skip(amt);
                    if pos >= len {
                        ensure(matches!(r, Err(SynthesisError::IoError(_))), || "skip past the end accepted".into())?;
                    } else if pos + amt <= len {
                        ensure(r.is_ok(), || "skip rejected".into())?;
                        pos += amt;
                    } else {
                        break;
                    }
                } else {
                    match s.next() {
                        Ok(p) => {
                            ensure(pos < len && *p == v[pos] && !bool::from(v[pos].is_identity()), || format!("next at {} of {}", pos, len))?;
                            pos += 1;
                        }
                        Err(SynthesisError::IoError(_)) => ensure(pos >= len, || "early end of source".into())?,
                        Err(SynthesisError::UnexpectedIdentity) => {
                            ensure(pos < len && bool::from(v[pos].is_identity()), || "spurious identity".into())?;
                            break;
                        }
                        Err(e) => return Err(format!("{:?}", e)),
                    }
                }
            }
            Ok(1)
        });
    }
    r.case(&format!("{} mismatched density", f), |_| {
        let mut t = DensityTracker::new();
        t.add_element();
        let t = Arc::new(t);
        let w = Worker::new();
        ensure(panics(|| { let _ = multiexp::<_, _, G, _>(&w, (Arc::new(vec![G::generator().to_affine(); 3]), 0), t.clone(), Arc::new(vec![(&G::Scalar::from(1u64)).into(), (&G::Scalar::from(1u64)).into()])); }), || "density size differs from the number of exponents".into())?;
        Ok(1)
    });
}
pub fn c12(r: &mut Rep) {
    r.rule = "exponent vectors of 0..1200 elements (zero, one, -1, powers of two and their predecessors, small, random), full and partial density, sources exact/long/short, identities at zero-exponent, unselected and needed positions, pools of 1..8 threads, against the plain sum; every exponent of an 4-bit and 7-bit field".into();
    let p = pools();
    let m = r.n(6, 40);
    let counts = [0usize, 1, 2, 3, 5, 8, 17, 31, 32, 33, 55, 149, 404];
    c12_g::<D1<13>>(r, "F13", &p, &counts, m);
    c12_g::<D1<97>>(r, "F97", &p, &counts, m);
    c12_g::<D2<64513>>(r, "F64513", &p, &counts, m);
    c12_g::<D1<NTT60>>(r, "NTT60", &p, &counts, m);
    c12_g::<D1<NTT60>>(r, "NTT60 long", &p, &[1097, 1200], r.n(2, 8));
    c12_g::<bls12_381::G1Projective>(r, "G1", &p[..2], &[0, 1, 4, 33, 60], r.n(3, 8));
}

// ---------------------------------------------------------------- C13
pub fn c13(r: &mut Rep) {
    r.rule = "random add/mark histories (repeated marks, marks at both ends and around word boundaries 63..65, 127..129) against a boolean vector, observed through size, total and iteration after every step".into();
    for k in 0..r.n(200, 4000) {
        r.case(&format!("history {}", k), |rng| {
            let mut t = if k % 2 == 0 { DensityTracker::new() } else { DensityTracker::default() };
            let mut m: Vec<bool> = vec![];
            let grow = 1 + (rng.next_u32() % 140) as usize;
            for step in 0..(20 + k % 60) {
                match rng.next_u32() % 4 {
                    0 => {
                        for _ in 0..(if step == 0 { grow } else { 1 + rng.next_u32() as usize % 5 }) {
                            t.add_element();
                            m.push(false);
                        }
                    }
                    _ if m.is_empty() => {}
                    x => {
                        let i = match x { 1 => m.len() - 1, _ => (rng.next_u32() as usize) % m.len() };
                        for _ in 0..(1 + rng.next_u32() % 2) {
                            t.inc(i);
                        }
                        m[i] = true;
                    }
                }
                let it: Vec<bool> = QueryDensity::iter(&t).collect();
                ensure(it == m, || format!("iteration {:?}, expected {:?}", it, m))?;
                ensure(t.get_query_size() == Some(m.len()), || format!("size {:?}, expected {}", (&t).get_query_size(), m.len()))?;
                let c = m.iter().filter(|x| **x).count();
                ensure(t.get_total_density() == c, || format!("total {}, expected {}", t.get_total_density(), c))?;
            }
            let n = m.len();
            ensure(panics(|| { let mut t2 = DensityTracker::new(); for _ in 0..n { t2.add_element(); } t2.inc(n); }), || "marking a missing position".into())?;
            Ok(1)
        });
    }
    let mut sizes = vec![255usize, 256, 257, 32_768, 65_535, 65_536, 65_537, 131_072, 140_000, 1 << 20];
    if r.thorough {
        sizes.extend([1 << 22, (1 << 24) + 1]);
    }
    for n in sizes {
        for (kind, step) in [("all", 1usize), ("every third", 3), ("none but the last", n)] {
            r.case(&format!("{} positions, {} marked", n, kind), |_| {
                let mut t = DensityTracker::new();
                for _ in 0..n {
                    t.add_element();
                }
                let mut c = 0;
                let mut i = n;
                while i > 0 {
                    t.inc(i - 1);
                    c += 1;
                    i = i.saturating_sub(step);
                }
                ensure(t.get_total_density() == c, || format!("total {}, expected {}", t.get_total_density(), c))?;
                ensure(t.get_query_size() == Some(n), || format!("size {:?}", (&t).get_query_size()))?;
                let mut k = 0usize;
                for b in QueryDensity::iter(&t) {
                    ensure(b == ((n - 1 - k) % step == 0), || format!("position {} is {}", k, b))?;
                    k += 1;
                }
                ensure(k == n, || format!("{} positions iterated", k))?;
                Ok(1)
            });
        }
    }
    r.case("full density", |_| {
        ensure((&FullDensity).get_query_size().is_none(), || "full density claims a size".into())?;
        let v: Vec<bool> = QueryDensity::iter(&FullDensity).take(100_000).collect();
        ensure(v.len() == 100_000 && v.iter().all(|b| *b), || "full density skips a position".into())?;
        let f: &FullDensity = FullDensity.as_ref();
        ensure(f.get_query_size().is_none(), || "as_ref".into())?;
        Ok(1)
    });
}
