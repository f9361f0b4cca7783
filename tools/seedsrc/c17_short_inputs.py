PROPERTY='C17'
NEEDS='a proof checked with fewer public inputs than the key has'
BREAKS='missing public inputs are silently treated as zero'
EDITS=[('groth16/src/verifier.rs', '    if (public_inputs.len() + 1) != pvk.ic.len() {', '    if (public_inputs.len() + 1) > pvk.ic.len() {')]
DEMO='use bellman::{Circuit, ConstraintSystem, SynthesisError, VerificationError};\nuse bls12_381::{Bls12, Scalar};\nuse ff::Field;\nuse rand_core::SeedableRng;\nstruct C;\nimpl Circuit<Scalar> for C {\n    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {\n        let a = cs.alloc_input(|| "a", || Ok(Scalar::ONE))?;\n        let b = cs.alloc_input(|| "b", || Ok(Scalar::ZERO))?;\n        let c = cs.alloc(|| "c", || Ok(Scalar::ONE))?;\n        cs.enforce(|| "m", |lc| lc + a + b, |lc| lc + c, |lc| lc + a);\n        Ok(())\n    }\n}\nfn main() {\n    let mut rng = rand_xorshift::XorShiftRng::from_seed([7; 16]);\n    let p = groth16::generate_random_parameters::<Bls12, _, _>(C, &mut rng).unwrap();\n    let pvk = groth16::prepare_verifying_key(&p.vk);\n    let proof = groth16::create_random_proof(C, &p, &mut rng).unwrap();\n    groth16::verify_proof(&pvk, &proof, &[Scalar::ONE, Scalar::ZERO]).unwrap();\n    assert!(matches!(groth16::verify_proof(&pvk, &proof, &[Scalar::ONE]), Err(VerificationError::InvalidVerifyingKey)));\n}\n'
