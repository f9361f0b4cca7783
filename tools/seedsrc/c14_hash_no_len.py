PROPERTY='C14'
NEEDS='two systems whose constraints split the same terms differently between the three sides'
BREAKS='the digest omits the number of terms of a combination, so different systems collide'
EDITS=[('src/gadgets/test/mod.rs', '    BigEndian::write_u64(&mut buf[0..8], map.len() as u64);\n    h.update(&buf[0..8]);\n', '    // The terms themselves determine the combination.\n')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\n\nfn main() {\n    let mk = |k: usize| {\n        let mut cs = TestConstraintSystem::<Scalar>::new();\n        let x = cs.alloc(|| "x", || Ok(Scalar::ONE)).unwrap();\n        cs.enforce(|| "c", |lc| if k == 0 { lc + x } else { lc }, |lc| if k == 1 { lc + x } else { lc }, |lc| lc);\n        cs.enforce(|| "d", |lc| lc, |lc| lc, |lc| if k == 2 { lc + x } else { lc });\n        cs.hash()\n    };\n    assert_ne!(mk(0), mk(1));\n    assert_ne!(mk(0), mk(2));\n}\n'
