PROPERTY='C20'
NEEDS='a system that distinguishes the two factors of a constraint, reached through a namespace'
BREAKS='a namespace hands the two factors of a constraint over in the wrong order'
EDITS=[('src/lib.rs', '        self.0.enforce(annotation, a, b, c)', '        self.0.enforce(annotation, b, a, c)')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\n\nfn main() {\n    let mut direct = TestConstraintSystem::<Scalar>::new();\n    let x = direct.alloc(|| "x", || Ok(Scalar::from(2))).unwrap();\n    direct.enforce(|| "c", |lc| lc + x, |lc| lc + (Scalar::from(2), x), |lc| lc + (Scalar::from(4), x));\n    let mut spaced = TestConstraintSystem::<Scalar>::new();\n    {\n        let mut ns = spaced.namespace(|| "ns");\n        let x = ns.alloc(|| "x", || Ok(Scalar::from(2))).unwrap();\n        ns.enforce(|| "c", |lc| lc + x, |lc| lc + (Scalar::from(2), x), |lc| lc + (Scalar::from(4), x));\n    }\n    assert_eq!(direct.hash(), spaced.hash());\n}\n'
