HOW = {
"C01": "Each operator's postcondition is `ev(result, a) ≡ ev(lhs, a) ± k·ev(rhs, a)` for every assignment `a` (mod p), over the real `Vec` of terms, so merging or dropping of terms is free but its value is not.",
"C02": "Soundness, completeness and the value of each gadget for every mix of allocated/negated/constant operands (the case split is in the code; the contract is one formula). Equality of two unequal constants must return the error.",
"C03": "Postconditions `r ≡ a·b`, `r ≡ a²`, `a ≢ 0`, the swap, `inputize`, and `Num` accumulation, with the error cases `DivisionByZero`/`AssignmentMissing`.",
"C04": "Loop invariants carry the weighted sum; strictness is proved by the run invariant of the comparison with p−1 (`AND` of each run of ones, implications below zeros).",
"C05": "Words are 32 bits with `word(u, asg)`; each operation is related to the u32 function, addition to the sum mod 2^32 through the multi-bit carry allocation and the field-size bound. That the shape does not depend on the witness is covered by the bounded run only.",
"C06": "The accumulator invariant is that the packed differences are below the field size, so the emitted equality holds iff every submitted pair is equal (both directions).",
"C07": "spec/shaspec.vt states FIPS 180-4 over sequences of bits (schedule, rounds, padding, chaining); its constants are shown by computation to be the leading fractional bits of the cube and square roots of the first primes, which are shown prime and consecutive. Every step of the circuit is an `op` (sigma, Ch, Maj, deferred sum); the schedule loop keeps `scheduled`, the 64 rounds keep `rounded` (registers, the deferred sums a and e included, equal the standard's state), the flush of the deferred equalities turns them into constraints, `chained` carries the hash value over blocks, and the padding loops are shown to give exactly the standard's padded message. For every assignment satisfying what was emitted the result bits are `sha` of the input bits, and an honest prover's assignment satisfies everything.",
"C08": "spec/blakespec.vt states RFC 7693 (work vector, mixing function, rounds, counter and final flag, parameter block with personalization, zero padding to little-endian words); the permutation table's rows are shown by computation to be permutations. The circuit is composed as a straight-line program over words: `ran(t, from, to, ins, outs)` says that outs is `t` of ins for every assignment satisfying what was emitted and that an honest prover satisfies it; `mixing_g` is shown to be `gmix` after each of its eight assignments, `blake2s_compression` to be `bcompress` (deferred sums carried through the MultiEq and enforced on its drop), `blake2s` to be `blake` of the input bits for every multiple of eight bits, the empty message included.",
"C09": "The interpolation coefficients computed by `synth` are shown to reproduce every entry, for every table; the lookups' constraints then give the entry.",
"C10": "One input per chunk, its value is the little-endian value of the chunk, equal to what `compute_multipacking` returns; injectivity is a lemma over the chunk values.",
"C11": "`serial_fft` and `parallel_fft` satisfy `out[i] = pe(in, ω^i)` for every length, ω and thread count (bit reversal and butterflies by invariants; parallel split by the decomposition lemma). On domains: coset, inverse (orthogonality of powers of a primitive root), zero padding, `z` and division.",
"C12": "The digit windows are related to the exponents (`dig`, `ewfs`), the bucket sum to `Σ b·k`, and regions are chained by doublings; the result is `total(...)`, and `fine(...)` says exactly when an error is due.",
"C13": "The bit vector is a ghost `Seq<bool>`; `inc` updates one position and the total is `count1`.",
"C14": "Bounded at present: random systems with an independent evaluator, namespaces, overwriting, digest comparisons.",
"C15": "The recorder `KeypairAssembly` is shown to hold, per variable, the column of its coefficients (`told`); `eval_at_tau`/`eval` to turn columns into group elements with the right logarithms; `generate_parameters` to return exactly the elements of `crs` (verification key, H, IC, L, and A/B queries without identities) for the recorded constraints plus one per input, at Lagrange coefficients characterised by `lagr`, or the documented error.",
"C16": "`eval` is shown to return the combination's value and to mark exactly the variables whose terms do not cancel; `ProvingAssignment` to hold the values, the evaluations and the densities of the constraints told (`told`). `create_proof` (spec/create.vt) is shown to return, for some run of the circuit and the polynomials that interpolate its three sides, exactly the proof `blinded` describes (a = r*delta + alpha + sum over the A query, and so on), and to fail only if the circuit does, the parameter source does, the degree is too large or the key lacks an element it needs (`serves`). spec/quot.vt proves that the quotient computed on the coset is exact whenever the constraints hold on the domain (division by x^n - 1, uniqueness of interpolation). spec/honest.vt then proves completeness of Groth16 over these contracts: `honest` (a key that is `key_for` the circuit serves every satisfying run, and every blinded proof is accepted) and `setup_prove_verify`, a client that calls generate_parameters, create_random_proof and verify_proof through their contracts only and is shown to end in acceptance. The bounded run adds the toy engine's comparison with the unique blinded proof, and real BLS12-381.",
"C17": "`verify_proof` returns `Ok` iff the length matches and the equation over logarithms holds, with the right error in the other cases; `prepare_verifying_key` establishes the prepared key.",
"C18": "The verifier's accumulators are shown to be the weighted sums for ghost weights drawn nonzero; acceptance is the weighted sum of all items' gaps being zero.",
"C19": "The formats are spec functions: encoders `put_proof/put_vk/put_par` and parsers `get_*` over byte sequences. Each `write` is shown to append exactly the encoding, each `read` (with its closures) to return exactly what the parser says and leave exactly the rest, failing only where the parser does (or the stream breaks). Lemmas over them: parse(encode(v) + x) = (v, x); a successful checked parse yields elements of the group, no identity where none may be, and re-encodes to exactly the bytes consumed; every proper prefix of an encoding is refused. Exec clients (`proof_there_and_back`, ...) compose the real contracts, `eq` included.",
"C20": "A ghost log of root pushes/pops; `Namespace` and `&mut CS` forward every call unchanged, and `Drop` pops once.",
}
