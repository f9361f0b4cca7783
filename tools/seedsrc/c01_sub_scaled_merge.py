PROPERTY='C01'
NEEDS='subtracting a scaled combination whose first term repeats the last variable of the left operand'
BREAKS='the repeated term is subtracted with its unscaled coefficient'
EDITS=[('src/lib.rs', '            self = self - (tmp, s.0);\n', '            match self.0.last_mut() {\n                // Fold a repeated variable into the term that already holds it.\n                Some(last) if last.0 .0 == s.0 .0 => last.1.sub_assign(&s.1),\n                _ => self = self - (tmp, s.0),\n            }\n')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\n\nfn main() {\n    let mut cs = TestConstraintSystem::<Scalar>::new();\n    let x = cs.alloc(|| "x", || Ok(Scalar::from(5))).unwrap();\n    let y = cs.alloc(|| "y", || Ok(Scalar::from(25))).unwrap();\n    // y - 5x == 0\n    let five_x = LinearCombination::<Scalar>::zero() + x;\n    let l = LinearCombination::<Scalar>::zero() + y + (Scalar::from(1), x) - (Scalar::from(6), &five_x);\n    cs.enforce(|| "c", |lc| lc + TestConstraintSystem::<Scalar>::one(), |_| l, |lc| lc);\n    assert!(cs.is_satisfied());\n}\n'
