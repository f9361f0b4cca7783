PROPERTY='C19'
NEEDS='a parameter file with a B_G2 query element on the curve but outside the subgroup'
BREAKS='checked reading accepts a G2 point outside the prime-order group'
EDITS=[('groth16/src/lib.rs', '            let affine = if checked {\n                E::G2Affine::from_uncompressed(&repr)\n            } else {\n                E::G2Affine::from_uncompressed_unchecked(&repr)\n            };\n', '            // The verification key has been checked in full already.\n            let affine = E::G2Affine::from_uncompressed_unchecked(&repr);\n')]
DEMO='use bellman::{Circuit, ConstraintSystem, SynthesisError};\nuse bls12_381::{Bls12, G2Affine, Scalar};\nuse rand_core::SeedableRng;\nuse std::sync::Arc;\nstruct C(u64);\nimpl Circuit<Scalar> for C {\n    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {\n        let a = cs.alloc(|| "a", || Ok(Scalar::from(self.0)))?;\n        let b = cs.alloc_input(|| "b", || Ok(Scalar::from(self.0 * self.0)))?;\n        cs.enforce(|| "m", |lc| lc + a, |lc| lc + a, |lc| lc + b);\n        Ok(())\n    }\n}\nfn main() {\n    let mut rng = rand_xorshift::XorShiftRng::from_seed([7; 16]);\n    let mut p = groth16::generate_random_parameters::<Bls12, _, _>(C(2), &mut rng).unwrap();\n    // a curve point that is not torsion free\n    let mut bad = None;\n    for i in 1..200u8 {\n        let mut b = [0u8; 96];\n        b[0] = 0x80; b[95] = i;\n        let q = G2Affine::from_compressed_unchecked(&b);\n        if bool::from(q.is_some()) { let q = q.unwrap(); if !bool::from(q.is_torsion_free()) { bad = Some(q); break; } }\n    }\n    let mut ok = vec![]; p.write(&mut ok).unwrap();\n    assert!(groth16::Parameters::<Bls12>::read(&ok[..], true).unwrap() == p);\n    p.b_g2 = Arc::new(vec![bad.unwrap(); p.b_g2.len()]);\n    let mut out = vec![]; p.write(&mut out).unwrap();\n    assert!(groth16::Parameters::<Bls12>::read(&out[..], true).is_err(), "point outside the group accepted");\n}\n'
