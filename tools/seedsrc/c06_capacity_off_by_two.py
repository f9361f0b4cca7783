PROPERTY='C06'
NEEDS='submissions whose declared widths fill the modulus width exactly'
BREAKS='the packed sides may exceed the modulus, so unequal pairs pass by wrapping around'
EDITS=[('src/gadgets/multieq.rs', '        if (Scalar::CAPACITY as usize) <= (self.bits_used + num_bits) {', '        if (Scalar::NUM_BITS as usize) < (self.bits_used + num_bits) {'), ('src/gadgets/multieq.rs', '        assert!((Scalar::CAPACITY as usize) > (self.bits_used + num_bits));', '        assert!((Scalar::NUM_BITS as usize) >= (self.bits_used + num_bits));')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::multieq::MultiEq;\nfn main() {\n    let mut cs = TestConstraintSystem::<Scalar>::new();\n    // modulus = lo + 2^128 * hi\n    let rep = (-Scalar::ONE).to_repr();\n    let mut lo = [0u8; 32]; lo[..16].copy_from_slice(&rep[..16]);\n    let mut hi = [0u8; 32]; hi[..16].copy_from_slice(&rep[16..]);\n    let lo = Scalar::from_repr(lo).unwrap() + Scalar::ONE;\n    let hi = Scalar::from_repr(hi).unwrap();\n    let a = cs.alloc(|| "lo", || Ok(lo)).unwrap();\n    let b = cs.alloc(|| "hi", || Ok(hi)).unwrap();\n    let zero = LinearCombination::<Scalar>::zero();\n    {\n        let mut m = MultiEq::new(&mut cs);\n        m.enforce_equal(128, &(LinearCombination::zero() + a), &zero);\n        m.enforce_equal(127, &(LinearCombination::zero() + b), &zero);\n    }\n    assert!(!cs.is_satisfied(), "nonzero numbers accepted as equal to zero");\n}\n'
