PROPERTY='C05'
NEEDS='a sum of nine or more words that needs the thirty-sixth result bit'
BREAKS='the carry bits of sums of more than eight words are not all allocated'
EDITS=[('src/gadgets/uint32.rs', 'let mut max_value = (operands.len() as u64) * (u64::from(u32::max_value()));', 'let mut max_value = (operands.len().min(8) as u64) * (u64::from(u32::max_value()));')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::{multieq::MultiEq, uint32::UInt32};\nfn main() {\n    let mut cs = TestConstraintSystem::<Scalar>::new();\n    {\n        let mut m = MultiEq::new(&mut cs);\n        let ops: Vec<UInt32> = (0..10).map(|i| UInt32::alloc(m.namespace(|| format!("w{}", i)), Some(0xffff_fff0 + i)).unwrap()).collect();\n        UInt32::addmany(m.namespace(|| "sum"), &ops).unwrap();\n    }\n    assert!(cs.is_satisfied(), "honest sum rejected");\n}\n'
