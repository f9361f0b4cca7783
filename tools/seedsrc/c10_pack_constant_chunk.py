PROPERTY='C10'
NEEDS='a capacity-sized chunk made of constant bits only'
BREAKS='no public input is allocated for a chunk of constants, so the circuit and the out-of-circuit packing disagree'
EDITS=[('src/gadgets/multipack.rs', '        let mut num = Num::<Scalar>::zero();\n', '        if bits.iter().all(|bit| bit.is_constant()) {\n            // Already known to the verifier.\n            continue;\n        }\n        let mut num = Num::<Scalar>::zero();\n')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::boolean::{AllocatedBit, Boolean};\n\nfn main() {\n    let mut cs = TestConstraintSystem::<Scalar>::new();\n    let vals: Vec<bool> = (0..300).map(|i| i % 3 == 0).collect();\n    let mut bits: Vec<Boolean> = vals[..254].iter().map(|b| Boolean::constant(*b)).collect();\n    for i in 254..300 { bits.push(AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(vals[i])).unwrap().into()); }\n    bellman::gadgets::multipack::pack_into_inputs(cs.namespace(|| "p"), &bits).unwrap();\n    let want = bellman::gadgets::multipack::compute_multipacking::<Scalar>(&vals);\n    assert_eq!(cs.num_inputs(), want.len() + 1);\n    assert!(cs.is_satisfied() && cs.verify(&want));\n}\n'
