PROPERTY='C12'
NEEDS='a source one base short whose missing base belongs to a zero exponent'
BREAKS='skipping exactly one element past the end of the source is not reported'
EDITS=[('src/multiexp.rs', '    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {\n        if self.0.len() <= self.1 {', '    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {\n        if self.0.len() < self.1 {')]
DEMO='use bellman::multiexp::{multiexp, FullDensity};\nuse bellman::multicore::Worker;\nuse bls12_381::{G1Projective, G1Affine, Scalar};\nuse ff::Field;\nuse group::{Group, Curve};\nuse std::sync::Arc;\nfn main() {\n    let bases: Vec<G1Affine> = (1..4u64).map(|i| (G1Projective::generator() * Scalar::from(i)).to_affine()).collect();\n    let exps: Vec<Scalar> = vec![Scalar::from(5), Scalar::from(6), Scalar::from(7), Scalar::ZERO];\n    let r: Result<G1Projective, _> = multiexp(&Worker::new(), (Arc::new(bases), 0), FullDensity, Arc::new(exps.iter().map(|e| e.into()).collect())).wait();\n    assert!(r.is_err(), "ran out of bases without an error");\n}\n'
