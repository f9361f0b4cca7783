PROPERTY='C11'
NEEDS='a thread pool whose size is not a power of two'
BREAKS='the starting power of each chunk assumes power-of-two chunks'
EDITS=[('src/domain.rs', '        worker.scope(self.coeffs.len(), |scope, chunk| {\n            for (i, v) in self.coeffs.chunks_mut(chunk).enumerate() {\n                scope.spawn(move |_scope| {\n                    let mut u = g.pow_vartime(&[(i * chunk) as u64]);', '        let step = std::cmp::max(self.coeffs.len() >> worker.log_num_threads(), 1);\n        worker.scope(self.coeffs.len(), |scope, chunk| {\n            for (i, v) in self.coeffs.chunks_mut(chunk).enumerate() {\n                scope.spawn(move |_scope| {\n                    let mut u = g.pow_vartime(&[(i * step) as u64]);')]
DEMO='use bellman::domain::{EvaluationDomain, Scalar as S};\nuse bellman::multicore::Worker;\nuse bls12_381::Scalar;\nuse ff::PrimeField;\nfn main() {\n    rayon::ThreadPoolBuilder::new().num_threads(3).build_global().unwrap();\n    let c: Vec<S<Scalar>> = (0..16u64).map(|i| S(Scalar::from(i * i + 1))).collect();\n    let mut d = EvaluationDomain::from_coeffs(c.clone()).unwrap();\n    d.distribute_powers(&Worker::new(), Scalar::MULTIPLICATIVE_GENERATOR);\n    for (i, v) in d.as_ref().iter().enumerate() {\n        assert!(v.0 == c[i].0 * Scalar::MULTIPLICATIVE_GENERATOR.pow_vartime(&[i as u64, 0, 0, 0]), "coefficient {}", i);\n    }\n}\n'
