PROPERTY='C16'
NEEDS='two public inputs on the B side of constraints, the first of which has the value zero and the second has not'
BREAKS='a zero-valued input is not marked as dense, so the prover reads shifted query elements'
EDITS=[('groth16/src/prover.rs', '        if !coeff.is_zero_vartime() {\n            match', '        // Zero-valued inputs contribute nothing.\n        let skip = match index.get_unchecked() {\n            Index::Input(i) => input_assignment[i].is_zero_vartime(),\n            Index::Aux(_) => false,\n        };\n        if !(coeff.is_zero_vartime() || skip) {\n            match')]
DEMO='use bellman::{Circuit, ConstraintSystem, SynthesisError};\nuse bls12_381::{Bls12, Scalar};\nuse ff::Field;\nuse rand_core::SeedableRng;\n#[derive(Clone)]\nstruct C(Option<[u64; 3]>);\nimpl Circuit<Scalar> for C {\n    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {\n        let v = |i: usize| self.0.map(|x| Scalar::from(x[i])).ok_or(SynthesisError::AssignmentMissing);\n        let a = cs.alloc(|| "a", || v(0))?;\n        let b = cs.alloc_input(|| "b", || v(1))?;\n        let d = cs.alloc_input(|| "d", || v(2))?;\n        let ab = cs.alloc(|| "ab", || Ok(v(0)? * v(1)?))?;\n        let ad = cs.alloc(|| "ad", || Ok(v(0)? * v(2)?))?;\n        cs.enforce(|| "m", |lc| lc + a, |lc| lc + b, |lc| lc + ab);\n        cs.enforce(|| "n", |lc| lc + a, |lc| lc + d, |lc| lc + ad);\n        Ok(())\n    }\n}\nfn main() {\n    let mut rng = rand_xorshift::XorShiftRng::from_seed([7; 16]);\n    let p = groth16::generate_random_parameters::<Bls12, _, _>(C(None), &mut rng).unwrap();\n    let pvk = groth16::prepare_verifying_key(&p.vk);\n    for w in [[5, 3, 7], [5, 0, 7]] {\n        let proof = groth16::create_random_proof(C(Some(w)), &p, &mut rng).unwrap();\n        groth16::verify_proof(&pvk, &proof, &[Scalar::from(w[1]), Scalar::from(w[2])]).expect("honest proof rejected");\n    }\n    let _ = Scalar::ZERO;\n}\n'
