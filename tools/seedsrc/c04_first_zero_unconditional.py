PROPERTY='C04'
NEEDS='a forged decomposition with a one at the first zero after a run of ones of the modulus'
BREAKS='the first zero of each run of zeros but the last is not forced, so values have a second decomposition'
EDITS=[('src/gadgets/num.rs', '                    current_run.truncate(0);\n                }\n', '                    current_run.truncate(0);\n\n                    // The run has just been combined; its first zero is implied by it.\n                    if i + 32 < Scalar::CAPACITY as usize {\n                        let a_bit = AllocatedBit::alloc(cs.namespace(|| format!("bit {}", i)), a_bit)?;\n                        result.push(a_bit);\n                        i += 1;\n                        continue;\n                    }\n                }\n')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::num::AllocatedNum;\nuse ff::PrimeFieldBits;\nfn main() {\n    let mut cs = TestConstraintSystem::<Scalar>::new();\n    let n = AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(-Scalar::ONE)).unwrap();\n    n.to_bits_le_strict(&mut cs).unwrap();\n    assert!(cs.is_satisfied());\n    // forge: the leading ones of the modulus, then a one where it has a zero, then zeros\n    let b: Vec<bool> = (-Scalar::ONE).to_le_bits().iter().by_vals().take(255).collect::<Vec<_>>().into_iter().rev().collect();\n    for z in 1..250 {\n        if b[z] || !b[z - 1] { continue; }\n        let mut f = b.clone();\n        f[z] = true;\n        for x in &mut f[z + 1..] { *x = false; }\n        let mut v = Scalar::ZERO;\n        for (i, x) in f.iter().enumerate() {\n            v = v.double() + if *x { Scalar::ONE } else { Scalar::ZERO };\n            cs.set(&format!("bit {}/boolean", i), if *x { Scalar::ONE } else { Scalar::ZERO });\n        }\n        cs.set("n/num", v);\n        // the conjunctions of the runs, as an adversary would set them\n        let mut last: Option<(bool, usize)> = None;\n        let mut run: Vec<bool> = vec![];\n        for i in 0..255 {\n            if b[i] { run.push(f[i]); continue; }\n            if run.is_empty() { continue; }\n            if let Some((l, _)) = last { run.push(l); }\n            let mut cur = run[0];\n            for (j, x) in run.iter().enumerate().skip(1) {\n                cur &= *x;\n                cs.set(&format!("run ending at {}/and {}/and result", i, j), if cur { Scalar::ONE } else { Scalar::ZERO });\n            }\n            last = Some((cur, i));\n            run.clear();\n        }\n        assert!(!cs.is_satisfied(), "bits at or above the modulus accepted at {}", z);\n    }\n}\n'
