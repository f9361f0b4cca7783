PROPERTY='C09'
NEEDS='a table that contains a zero coordinate after nonzero ones'
BREAKS='zero entries are skipped when the window coefficients are derived'
EDITS=[('src/gadgets/lookup.rs', '        let mut cur = assignment[i].neg();', '        if constant.is_zero_vartime() {\n            // Nothing to add for this entry.\n            continue;\n        }\n        let mut cur = assignment[i].neg();')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::boolean::{AllocatedBit, Boolean};\n\nfn main() {\n    for sel in 0..8usize {\n        let mut cs = TestConstraintSystem::<Scalar>::new();\n        let bits: Vec<Boolean> = (0..3).map(|i| Boolean::from(AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some((sel >> i) & 1 == 1)).unwrap())).collect();\n        let table: Vec<(Scalar, Scalar)> = [3u64, 0, 5, 7, 0, 1, 9, 0].iter().map(|v| (Scalar::from(*v), Scalar::from(v + 1))).collect();\n        let (x, y) = bellman::gadgets::lookup::lookup3_xy(&mut cs, &bits, &table).unwrap();\n        assert!(cs.is_satisfied(), "entry {}", sel);\n        assert_eq!((x.get_value().unwrap(), y.get_value().unwrap()), table[sel]);\n    }\n}\n'
