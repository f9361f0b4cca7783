PROPERTY='C08'
NEEDS='a personalization whose second or sixth byte is 0x80 or more'
BREAKS='the personalization words are assembled from sign-extended halves'
EDITS=[('src/gadgets/blake2s.rs', 'UInt32::constant(0x1F83D9AB ^ LittleEndian::read_u32(&personalization[0..4])),', 'UInt32::constant(0x1F83D9AB ^ person(&personalization[0..4])),'), ('src/gadgets/blake2s.rs', 'UInt32::constant(0x5BE0CD19 ^ LittleEndian::read_u32(&personalization[4..8])),', 'UInt32::constant(0x5BE0CD19 ^ person(&personalization[4..8])),'), ('src/gadgets/blake2s.rs', '    assert_eq!(personalization.len(), 8);\n', '    // The halves of each word are combined separately.\n    let person = |bytes: &[u8]| {\n        LittleEndian::read_i16(&bytes[0..2]) as u32 | (LittleEndian::read_i16(&bytes[2..4]) as u32) << 16\n    };\n\n    assert_eq!(personalization.len(), 8);\n')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::boolean::{AllocatedBit, Boolean};\n\nfn main() {\n    for (len, p) in [(0usize, b"personal"), (3, b"p\\x80rsonal"), (65, b"perso\\xffal")] {\n        let msg: Vec<u8> = (0..len).map(|i| i as u8 ^ 0x5a).collect();\n        let mut cs = TestConstraintSystem::<Scalar>::new();\n        let bits: Vec<Boolean> = msg.iter().flat_map(|b| (0..8).map(move |i| Boolean::constant((b >> i) & 1 == 1))).collect();\n        let out = bellman::gadgets::blake2s::blake2s(cs.namespace(|| "h"), &bits, p).unwrap();\n        let want = blake2s_simd::Params::new().hash_length(32).personal(p).hash(&msg);\n        let got: Vec<u8> = out.chunks(8).map(|c| c.iter().rev().fold(0u8, |a, b| a << 1 | b.get_value().unwrap() as u8)).collect();\n        assert_eq!(&got[..], want.as_bytes(), "length {}", len);\n    }\n}\n'
