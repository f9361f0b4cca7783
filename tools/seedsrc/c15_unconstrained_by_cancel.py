PROPERTY='C15'
NEEDS='a private variable that occurs only in terms that cancel or have coefficient zero'
BREAKS='only variables without any term are reported as unconstrained'
EDITS=[('groth16/src/generator.rs', '    for e in l.iter() {\n        if e.is_identity().into() {\n            return Err(SynthesisError::UnconstrainedVariable);\n        }\n    }', '    for i in 0..assembly.num_aux {\n        if assembly.at_aux[i].is_empty()\n            && assembly.bt_aux[i].is_empty()\n            && assembly.ct_aux[i].is_empty()\n        {\n            return Err(SynthesisError::UnconstrainedVariable);\n        }\n    }')]
DEMO='use bellman::{Circuit, ConstraintSystem, SynthesisError};\nuse bls12_381::{Bls12, Scalar};\nuse ff::Field;\nuse rand_core::SeedableRng;\nstruct C;\nimpl Circuit<Scalar> for C {\n    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {\n        let x = cs.alloc(|| "x", || Ok(Scalar::ONE))?;\n        let y = cs.alloc(|| "y", || Ok(Scalar::ONE))?;\n        cs.enforce(|| "c", |lc| lc + x + y - y, |lc| lc + CS::one(), |lc| lc + CS::one());\n        Ok(())\n    }\n}\nfn main() {\n    let mut rng = rand_xorshift::XorShiftRng::from_seed([7; 16]);\n    let r = groth16::generate_random_parameters::<Bls12, _, _>(C, &mut rng);\n    assert!(matches!(r, Err(SynthesisError::UnconstrainedVariable)), "unconstrained variable accepted");\n}\n'
