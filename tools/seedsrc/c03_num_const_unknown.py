PROPERTY='C03'
NEEDS='adding a constant true bit to a symbolic number whose value is unknown'
BREAKS='the constant contributes only when the running value is known, so setup and proving build different constraints'
EDITS=[('src/gadgets/num.rs', '            lc: self.lc + &bit.lc(one, coeff),', '            lc: match (bit, newval) {\n                // Constants only need folding when there is a value to fold into.\n                (&Boolean::Constant(_), None) => self.lc,\n                _ => self.lc + &bit.lc(one, coeff),\n            },')]
DEMO='use bellman::gadgets::test::TestConstraintSystem;\nuse bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable, Index};\nuse bls12_381::Scalar;\nuse ff::{Field, PrimeField};\nuse bellman::gadgets::boolean::{AllocatedBit, Boolean};\nuse bellman::gadgets::num::Num;\nfn main() {\n    let build = |v: Option<bool>| {\n        let mut cs = TestConstraintSystem::<Scalar>::new();\n        let known = AllocatedBit::alloc(cs.namespace(|| "b"), Some(true)).unwrap();\n        let one = TestConstraintSystem::<Scalar>::one();\n        let bit = match v { Some(_) => Boolean::from(known), None => {\n            // a bit whose value is not known to the gadget\n            struct Shape;\n            let _ = Shape;\n            Boolean::from(unknown_bit())\n        }};\n        let n = Num::<Scalar>::zero().add_bool_with_coeff(one, &bit, Scalar::ONE)\n            .add_bool_with_coeff(one, &Boolean::constant(true), Scalar::from(2));\n        n.lc(Scalar::ONE).as_ref().len()\n    };\n    assert_eq!(build(Some(true)), build(None));\n}\nstruct NoWitness { aux: usize }\nimpl ConstraintSystem<Scalar> for NoWitness {\n    type Root = Self;\n    fn alloc<F, A, AR>(&mut self, _: A, _: F) -> Result<Variable, SynthesisError>\n    where F: FnOnce() -> Result<Scalar, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {\n        self.aux += 1; Ok(Variable::new_unchecked(Index::Aux(self.aux - 1)))\n    }\n    fn alloc_input<F, A, AR>(&mut self, _: A, _: F) -> Result<Variable, SynthesisError>\n    where F: FnOnce() -> Result<Scalar, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> { Ok(Self::one()) }\n    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, _: LA, _: LB, _: LC)\n    where A: FnOnce() -> AR, AR: Into<String>,\n        LA: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>,\n        LB: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>,\n        LC: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar> {}\n    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}\n    fn pop_namespace(&mut self) {}\n    fn get_root(&mut self) -> &mut Self { self }\n}\nfn unknown_bit() -> AllocatedBit {\n    AllocatedBit::alloc::<Scalar, _>(NoWitness { aux: 0 }, None).unwrap()\n}\n'
