//! C07 (SHA-256) and C08 (BLAKE2s)
use crate::fp::*;
use crate::p_gadgets::{b2f, bval, Bls};
use crate::reccs::*;
use crate::report::*;
use crate::solver::*;
use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::*;
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::SynthesisError;
use ff::PrimeField;
use rand_core::RngCore;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mix {
    Const,
    Alloc,
    Not,
    Any,
    OneVar,
}
const MIXES: [Mix; 5] = [Mix::Const, Mix::Alloc, Mix::Not, Mix::Any, Mix::OneVar];
fn message(g: &mut dyn RngCore, n: usize) -> Vec<u8> {
    match g.next_u32() % 5 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        _ => (0..n).map(|_| g.next_u32() as u8).collect(),
    }
}
/// 0 constant, 1 allocated, 2 negated
fn kinds(g: &mut dyn RngCore, m: Mix, n: usize) -> Vec<u8> {
    let one = if n > 0 { g.next_u32() as usize % n } else { 0 };
    (0..n)
        .map(|i| match m {
            Mix::Const => 0,
            Mix::Alloc => 1,
            Mix::Not => 2,
            Mix::Any => (g.next_u32() % 3) as u8,
            Mix::OneVar => (i == one) as u8,
        })
        .collect()
}
fn bits_of_bytes(b: &[u8], be: bool) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| if be { x >> (7 - i) & 1 == 1 } else { x >> i & 1 == 1 })).collect()
}
fn input<F: PrimeField>(cs: &mut RecCS<F>, bits: &[bool], kinds: &[u8], known: bool, fixed: &mut Vec<(usize, F)>) -> Vec<Boolean> {
    bits.iter()
        .zip(kinds)
        .map(|(b, k)| match k {
            0 => Boolean::constant(*b),
            k => {
                let raw = *b == (*k == 1);
                let a = AllocatedBit::alloc(&mut *cs, if known { Some(raw) } else { None }).unwrap();
                fixed.push((vn(a.get_variable()), b2f(raw)));
                if *k == 1 { Boolean::Is(a) } else { Boolean::Not(a) }
            }
        })
        .collect()
}
type Gadget<'a, F> = &'a dyn Fn(&mut RecCS<F>, &[Boolean]) -> Result<Vec<Boolean>, SynthesisError>;
fn check<F: PrimeField>(g: &mut dyn RngCore, bits: &[bool], m: Mix, want: &[bool], solve: bool, f: Gadget<F>) -> Result<u64, String> {
    let ks = kinds(g, m, bits.len());
    let desc = || {
        let h: String = bits.chunks(8).map(|c| format!("{:02x}", c.iter().fold(0u8, |a, b| a << 1 | *b as u8))).collect();
        format!("input bits (8 per hex byte, first bit high) {} kinds {:?}", h, m)
    };
    let tag = |e: String| format!("{}: {}", desc(), e);
    let mut cs = RecCS::<F>::new(Mode::Prove);
    let mut fixed = vec![];
    let i = input(&mut cs, bits, &ks, true, &mut fixed);
    let o = f(&mut cs, &i).map_err(|e| tag(format!("honest prover: {:?}", e)))?;
    if let Some(c) = cs.unsatisfied() {
        return Err(tag(format!("honest prover violates {}", c)));
    }
    ensure(o.len() == want.len(), || tag(format!("{} output bits", o.len())))?;
    let verify = |v: &dyn Fn(usize) -> F, o: &[Boolean]| -> Result<(), String> {
        for k in 0..want.len() {
            ensure(bval(&o[k], v) == b2f(want[k]), || tag(format!("output bit {} differs from the reference digest", k)))?;
        }
        Ok(())
    };
    verify(&|n| cs.val(n), &o)?;
    for k in 0..want.len() {
        ensure(o[k].get_value() == Some(want[k]), || tag(format!("output bit {} reports {:?}", k, o[k].get_value())))?;
    }
    let mut st = RecCS::<F>::new(Mode::Setup);
    let mut sf = vec![];
    let i = input(&mut st, bits, &ks, false, &mut sf);
    let so = f(&mut st, &i).map_err(|e| tag(format!("setup: {:?}", e)))?;
    ensure(st.same_shape(&cs), || tag("setup and prover emit different constraints".into()))?;
    let mut n = 1;
    if solve {
        match Solver::new(&st).search(&fixed, &mut |v| verify(v, &so)) {
            Verdict::Bad(e) => return Err(e),
            Verdict::Ok { solutions, complete } => {
                ensure(solutions > 0 || !complete, || tag("no satisfying assignment".into()))?;
                n += solutions as u64;
            }
        }
    }
    Ok(n)
}
fn c07_f<F: PrimeField>(r: &mut Rep, name: &str) {
    use sha2::Digest;
    let q = [0usize, 1, 3, 32, 55, 56, 57, 63, 64, 65, 119, 120, 128];
    let t: Vec<usize> = (0..200).collect();
    let lens: Vec<usize> = if r.thorough { t } else { q.to_vec() };
    for n in lens {
        for m in MIXES {
            if r.thorough || m == Mix::Any || n % 3 == 1 || n < 2 {
                r.case(&format!("{} sha256 {} bytes {:?}", name, n, m), |g| {
                    let msg = message(g, n);
                    let want = bits_of_bytes(&sha2::Sha256::digest(&msg), true);
                    check::<F>(g, &bits_of_bytes(&msg, true), m, &want, n < 60 && (m == Mix::Any || m == Mix::Alloc), &|cs, b| sha256(cs, b))
                });
            }
        }
    }
    for k in 0..r.n(2, 30) {
        for m in MIXES {
            r.case(&format!("{} block {} {:?}", name, k, m), |g| {
                let msg = message(g, 64);
                let mut st: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
                let mut blk = [0u8; 64];
                blk.copy_from_slice(&msg);
                sha2::compress256(&mut st, &[blk.into()]);
                let d: Vec<u8> = st.iter().flat_map(|w| w.to_be_bytes()).collect();
                check::<F>(g, &bits_of_bytes(&msg, true), m, &bits_of_bytes(&d, true), k == 0, &|cs, b| sha256_block_no_padding(cs, b))
            });
        }
    }
    r.case(&format!("{} bad lengths", name), |_| {
        for n in [1usize, 7, 9, 63] {
            let b = vec![Boolean::constant(true); n];
            ensure(panics(|| { let _ = sha256(&mut RecCS::<F>::new(Mode::Prove), &b); }), || format!("{} bits accepted", n))?;
        }
        for n in [0usize, 511, 513, 1024] {
            let b = vec![Boolean::constant(true); n];
            ensure(panics(|| { let _ = sha256_block_no_padding(&mut RecCS::<F>::new(Mode::Prove), &b); }), || format!("block of {} bits accepted", n))?;
        }
        Ok(1)
    });
    r.case(&format!("{} missing witness", name), |_| {
        let mut st = RecCS::<F>::new(Mode::Setup);
        let a = AllocatedBit::alloc(&mut st, None).unwrap();
        let b = vec![Boolean::Is(a); 16];
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(sha256(&mut cs, &b).is_err(), || "a digest of unknown bits was produced".into())?;
        Ok(1)
    });
}
pub fn c07(r: &mut Rep) {
    r.rule = "byte lengths around every block and padding boundary; constant, allocated, negated and mixed input bits; the reference is the sha2 crate; honest prover, unknown-value circuit of the same shape, and satisfying assignments with the input bits fixed (complete search, digest unique)".into();
    c07_f::<Bls>(r, "Bls");
    c07_f::<Fp<GOLD>>(r, "Gold");
}
fn c08_f<F: PrimeField>(r: &mut Rep, name: &str) {
    let q = [0usize, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 192];
    let t: Vec<usize> = (0..200).collect();
    let lens: Vec<usize> = if r.thorough { t } else { q.to_vec() };
    for n in lens {
        for m in MIXES {
            if r.thorough || m == Mix::Any || n % 3 == 1 || n < 2 {
                r.case(&format!("{} blake2s {} bytes {:?}", name, n, m), |g| {
                    let msg = message(g, n);
                    let pers = message(g, 8);
                    let d = blake2s_simd::Params::new().hash_length(32).personal(&pers).hash(&msg);
                    let want = bits_of_bytes(d.as_bytes(), false);
                    check::<F>(g, &bits_of_bytes(&msg, false), m, &want, n < 66 && (m == Mix::Any || m == Mix::Alloc), &|cs, b| blake2s(cs, b, &pers))
                });
            }
        }
    }
    for k in 0..8 {
        r.case(&format!("{} personalization {}", name, k), |g| {
            let mut pers = [0u8; 8];
            pers[k] = 1 << (g.next_u32() % 8);
            let msg = message(g, 3);
            let d = blake2s_simd::Params::new().hash_length(32).personal(&pers).hash(&msg);
            check::<F>(g, &bits_of_bytes(&msg, false), Mix::Any, &bits_of_bytes(d.as_bytes(), false), false, &|cs, b| blake2s(cs, b, &pers))
        });
    }
    r.case(&format!("{} bad lengths", name), |_| {
        for (n, p) in [(1usize, 8usize), (7, 8), (9, 8), (8, 7), (8, 9), (8, 0)] {
            let b = vec![Boolean::constant(true); n];
            ensure(panics(|| { let _ = blake2s(&mut RecCS::<F>::new(Mode::Prove), &b, &vec![0; p]); }), || format!("{} bits and {} bytes of personalization accepted", n, p))?;
        }
        Ok(1)
    });
    r.case(&format!("{} missing witness", name), |_| {
        let mut st = RecCS::<F>::new(Mode::Setup);
        let a = AllocatedBit::alloc(&mut st, None).unwrap();
        let b = vec![Boolean::Is(a); 16];
        let mut cs = RecCS::<F>::new(Mode::Prove);
        ensure(blake2s(&mut cs, &b, &[0; 8]).is_err(), || "a digest of unknown bits was produced".into())?;
        Ok(1)
    });
}
pub fn c08(r: &mut Rep) {
    r.rule = "byte lengths around every block boundary, random and single-bit personalizations; constant, allocated, negated and mixed input bits; the reference is the blake2s_simd crate; honest prover, unknown-value circuit of the same shape, and satisfying assignments with the input bits fixed (complete search, digest unique)".into();
    c08_f::<Bls>(r, "Bls");
    c08_f::<Fp<GOLD>>(r, "Gold");
}
