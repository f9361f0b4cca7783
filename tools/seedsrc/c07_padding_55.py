PROPERTY='C07'
NEEDS='a message of 55 bytes modulo 64'
BREAKS='an extra zero block is padded in when the padding bits exactly fill the block'
EDITS=[('src/gadgets/sha256.rs', "    padded.push(Boolean::constant(true));\n    // append K '0' bits, where K is the minimum number >= 0 such that L + 1 + K + 64 is a multiple of 512\n    while (padded.len() + 64) % 512 != 0 {\n        padded.push(Boolean::constant(false));\n    }\n", "    // and the seven '0' bits that complete its byte\n    padded.push(Boolean::constant(true));\n    padded.extend((0..7).map(|_| Boolean::constant(false)));\n    // append K '0' bits, such that L + 8 + K + 64 is a multiple of 512\n    let k = 512 - (padded.len() + 64) % 512;\n    padded.extend((0..k).map(|_| Boolean::constant(false)));\n")]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::boolean::{AllocatedBit, Boolean};\nuse sha2::{Digest, Sha256};\nfn main() {\n    for len in [3usize, 54, 55, 56, 119] {\n        let msg: Vec<u8> = (0..len).map(|i| i as u8 ^ 0x5a).collect();\n        let mut cs = TestConstraintSystem::<Scalar>::new();\n        let bits: Vec<Boolean> = msg.iter().flat_map(|b| (0..8).rev().map(move |i| Boolean::constant((b >> i) & 1 == 1))).collect();\n        let out = bellman::gadgets::sha256::sha256(cs.namespace(|| "h"), &bits).unwrap();\n        let want = Sha256::digest(&msg);\n        let got: Vec<u8> = out.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b.get_value().unwrap() as u8)).collect();\n        assert_eq!(&got[..], &want[..], "length {}", len);\n    }\n}\n'
