PROPERTY='C18'
NEEDS='two queued proofs whose C elements have been exchanged'
BREAKS='all items of the batch get the same weight, so errors that cancel each other are accepted'
EDITS=[('groth16/src/verifier/batch.rs', "        for Item { proof, inputs } in self.items.into_iter() {\n            // The spec is explicit that z != 0.  Field::random is defined to\n            // return a uniformly-random field element (which may be 0), so we\n            // loop until it's not, avoiding needing an assert or throwing an\n            // error through no fault of the batch items. This will likely never\n            // actually loop, but handles the edge case.\n            let z = loop {\n                let z = E::Fr::random(&mut rng);\n                if !z.is_zero_vartime() {\n                    break z;\n                }\n            };\n\n", "        // The spec is explicit that z != 0.  Field::random is defined to\n        // return a uniformly-random field element (which may be 0), so we\n        // loop until it's not, avoiding needing an assert or throwing an\n        // error through no fault of the batch items. This will likely never\n        // actually loop, but handles the edge case.\n        let z = loop {\n            let z = E::Fr::random(&mut rng);\n            if !z.is_zero_vartime() {\n                break z;\n            }\n        };\n\n        for Item { proof, inputs } in self.items.into_iter() {\n")]
DEMO='use bellman::{Circuit, ConstraintSystem, SynthesisError};\nuse bls12_381::{Bls12, Scalar};\nuse rand_core::{CryptoRng, RngCore, SeedableRng};\nstruct C(u64);\nimpl Circuit<Scalar> for C {\n    fn synthesize<CS: ConstraintSystem<Scalar>>(self, cs: &mut CS) -> Result<(), SynthesisError> {\n        let a = cs.alloc(|| "a", || Ok(Scalar::from(self.0)))?;\n        let b = cs.alloc_input(|| "b", || Ok(Scalar::from(self.0 * self.0)))?;\n        cs.enforce(|| "m", |lc| lc + a, |lc| lc + a, |lc| lc + b);\n        Ok(())\n    }\n}\nstruct R(rand_xorshift::XorShiftRng);\nimpl RngCore for R {\n    fn next_u32(&mut self) -> u32 { self.0.next_u32() }\n    fn next_u64(&mut self) -> u64 { self.0.next_u64() }\n    fn fill_bytes(&mut self, b: &mut [u8]) { self.0.fill_bytes(b) }\n    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> { self.0.try_fill_bytes(b) }\n}\nimpl CryptoRng for R {}\nfn main() {\n    let mut rng = R(rand_xorshift::XorShiftRng::from_seed([7; 16]));\n    let p = groth16::generate_random_parameters::<Bls12, _, _>(C(2), &mut rng).unwrap();\n    let mut p1 = groth16::create_random_proof(C(3), &p, &mut rng).unwrap();\n    let mut p2 = groth16::create_random_proof(C(4), &p, &mut rng).unwrap();\n    let (i1, i2) = ([Scalar::from(9)], [Scalar::from(16)]);\n    let mut ok = groth16::batch::Verifier::<Bls12>::new();\n    ok.queue((&p1, &i1[..]));\n    ok.queue((&p2, &i2[..]));\n    ok.verify(&mut rng, &p.vk).unwrap();\n    std::mem::swap(&mut p1.c, &mut p2.c);\n    let mut bad = groth16::batch::Verifier::<Bls12>::new();\n    bad.queue((&p1, &i1[..]));\n    bad.queue((&p2, &i2[..]));\n    assert!(bad.verify(&mut rng, &p.vk).is_err(), "two invalid proofs accepted as a batch");\n}\n'
