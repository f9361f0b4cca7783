PROPERTY='C02'
NEEDS='enforcing a bit equal to its own negation'
BREAKS='no constraint is emitted for two views of one allocated bit, so b = NOT b becomes satisfiable'
EDITS=[('src/gadgets/boolean.rs', '            (a, b) => {\n                cs.enforce(\n                    || "enforce equal",', '            (\n                &Boolean::Is(ref x) | &Boolean::Not(ref x),\n                &Boolean::Is(ref y) | &Boolean::Not(ref y),\n            ) if x.variable.get_unchecked() == y.variable.get_unchecked() => {\n                // Two views of one allocated bit need no constraint.\n                Ok(())\n            }\n            (a, b) => {\n                cs.enforce(\n                    || "enforce equal",')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::boolean::{AllocatedBit, Boolean};\n\nfn main() {\n    let mut cs = TestConstraintSystem::<Scalar>::new();\n    let b = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "b"), Some(true)).unwrap());\n    Boolean::enforce_equal(cs.namespace(|| "same"), &b, &b).unwrap();\n    assert!(cs.is_satisfied());\n    let r = Boolean::enforce_equal(cs.namespace(|| "neg"), &b, &b.not());\n    assert!(r.is_err() || !cs.is_satisfied());\n}\n'
