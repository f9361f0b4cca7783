#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the file stays one-line-per-property and valid).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Linear combinations evaluate exactly as they are written",
  "For every prime field and every assignment of the variables, the value of a linear combination built with the addition and subtraction operators (a variable, a scaled variable, another combination, a scaled combination) equals the sum and difference of the values of its operands, duplicates and cancelling terms included. An empty combination has value zero, and building one never changes its operands.",
  ["inputs","programs"],"every field, every assignment, every sequence of operators of any length",
  "No test evaluates a combination built with the scaled-combination operators; gadget tests reach only the shapes they build.",
  ["src/lib.rs"],[("the eight Add/Sub operator impls of LinearCombination","src/lib.rs"),("LinearCombination::zero","src/lib.rs")],
  ["terms exposed by as_ref()"])
p("C02","Boolean gadgets constrain exactly the Boolean function they compute",
  "In every satisfying assignment of the constraints they emit, an allocated bit is 0 or 1 (and 0 whenever the bit it is conditioned on is 1), and the result of XOR, AND, AND-NOT, NOR, NOT, choose, majority and equality on any mix of allocated, negated and constant bits equals that Boolean function of the operand bits. Conversely an honest prover that knows the operand values always obtains a satisfying assignment in which the reported value and the allocated value agree, and equality of two unequal constants is rejected.",
  ["inputs","programs"],"every prime field of odd characteristic, every operand kind, every assignment including malicious ones",
  "Tests try honest assignments and single-variable tampering over one field; soundness quantifies over all assignments of all fields.",
  ["src/gadgets/boolean.rs","src/gadgets.rs"],[("AllocatedBit::{alloc,alloc_conditionally,xor,and,and_not,nor}","src/gadgets/boolean.rs"),("Boolean::{enforce_equal,get_value,lc,not,xor,and,sha256_ch,sha256_maj}","src/gadgets/boolean.rs")],
  ["constraints and witness recorded by a ConstraintSystem; value of the returned bit"])
p("C03","Number gadgets constrain exactly the field operation they compute",
  "In every satisfying assignment, the product and square gadgets return the product and square of their operands, the nonzero assertion is satisfiable exactly for nonzero values, conditional reversal returns the pair swapped exactly when its condition bit is one, exposing a number as a public input makes that input equal to it, and symbolic numbers accumulate scaled bits exactly. The honest prover always satisfies these constraints with matching values, and the nonzero assertion on zero and a missing witness are reported as errors.",
  ["inputs","programs"],"every prime field, every value of the operands, every assignment including malicious ones",
  "Tests use a few values in one field and tamper with one variable.",
  ["src/gadgets/num.rs"],[("AllocatedNum::{alloc,inputize,mul,square,assert_nonzero,conditionally_reverse}","src/gadgets/num.rs"),("Num::{zero,lc,add_bool_with_coeff,from}","src/gadgets/num.rs")],
  ["constraints, witness, returned values and errors"])
p("C04","Bit decompositions are little-endian, complete, and strict ones unique",
  "Decomposing a number yields exactly as many bits as the field modulus has; every satisfying assignment makes their little-endian weighted sum congruent to the number, and in the strict form that sum read as an integer is below the modulus, so the decomposition is unique. The honest prover obtains the bits of the canonical representative, least significant first, and 64-bit integers are decomposed into their 64 bits in that order.",
  ["inputs","programs"],"every prime field, every value, every assignment including malicious ones",
  "The strictness argument depends on the bit pattern of the modulus and on all field elements; tests sample values over one field.",
  ["src/gadgets/num.rs","src/gadgets/boolean.rs"],[("AllocatedNum::to_bits_le","src/gadgets/num.rs"),("AllocatedNum::to_bits_le_strict","src/gadgets/num.rs"),("field_into_allocated_bits_le, field_into_boolean_vec_le, u64_into_boolean_vec_le","src/gadgets/boolean.rs")],
  ["returned bits; constraints and witness"])
p("C05","32-bit word gadgets compute u32 arithmetic",
  "In every satisfying assignment, the bits of the word returned by constant, allocation, bit (un)packing in either order, right rotation, right shift, XOR, majority, choose and multi-operand modular addition are those of the corresponding u32 function of the operand words. The reported value, when known, equals the value of the bits, the honest prover's assignment satisfies the constraints, and the emitted constraints do not depend on witness values or on whether they are known.",
  ["inputs","programs"],"every operand value and mix of constant/allocated bits, 2 to 10 addends, every assignment including malicious ones",
  "Tests sample random operands and honest assignments; soundness of carries and the absence of field wrap-around quantify over assignments.",
  ["src/gadgets/uint32.rs"],[("UInt32::{constant,alloc,from_bits,from_bits_be,into_bits,into_bits_be,rotr,shr,xor,sha256_maj,sha256_ch,triop,addmany}","src/gadgets/uint32.rs")],
  ["bits and value of the returned word; constraints and witness"])
p("C06","Batched equality enforces each equality separately",
  "Once a batching context has been closed, the emitted constraints are satisfied by an assignment if and only if every pair of values submitted for equality is equal, for any number of submissions whose declared bit widths bound the values, and every submission is covered by an emitted constraint. Everything else done through the context is passed unchanged to the underlying system.",
  ["inputs","histories"],"every sequence of submissions with nonzero widths below the field capacity, every assignment",
  "Whether two batched equalities can cancel or a pending one be dropped depends on the whole history of submissions; tests only see it through hash circuits.",
  ["src/gadgets/multieq.rs"],[("MultiEq::{new,enforce_equal,accumulate} and Drop","src/gadgets/multieq.rs")],
  ["constraints received by the underlying system"],[("bits_used/lhs/rhs","pending batch","src/gadgets/multieq.rs")])
p("C07","The SHA-256 circuit computes SHA-256",
  "For every byte-aligned message, the bits returned by the circuit are the SHA-256 digest of the message in every assignment that satisfies the emitted constraints, including messages that mix constant and allocated bits, and the single-block variant equals one unpadded compression from the initial state. The honest prover always satisfies the constraints.",
  ["inputs","programs"],"every message length that is a multiple of eight bits, every content, every assignment",
  "Tests cover a few lengths and random messages with honest assignments.",
  ["src/gadgets/sha256.rs"],[("sha256, sha256_block_no_padding, sha256_compression_function, get_sha256_iv","src/gadgets/sha256.rs"),("ROUND_CONSTANTS, IV","src/gadgets/sha256.rs")],
  ["returned bits; constraints and witness"])
p("C08","The BLAKE2s circuit computes personalized BLAKE2s-256",
  "For every byte-aligned message and every eight-byte personalization, the bits returned by the circuit are the 32-byte BLAKE2s digest (unkeyed, RFC 7693) of the message in every assignment that satisfies the emitted constraints. The honest prover always satisfies the constraints.",
  ["inputs","programs"],"every message length that is a multiple of eight bits, every content and personalization, every assignment",
  "Tests cover lengths up to a few blocks with one personalization and honest assignments.",
  ["src/gadgets/blake2s.rs"],[("blake2s, blake2s_compression, mixing_g","src/gadgets/blake2s.rs"),("SIGMA, R1..R4","src/gadgets/blake2s.rs")],
  ["returned bits; constraints and witness"])
p("C09","Lookup gadgets return the selected table entry",
  "In every satisfying assignment, the three-bit lookup returns both coordinates of the entry selected by its bits, and the signed two-bit lookup returns the selected x coordinate and the selected y coordinate negated exactly when the third bit is one. This holds for every table of field elements, and the honest prover satisfies the constraints.",
  ["inputs","programs"],"every table, every selector including constant and negated bits, every assignment",
  "Tests use random tables with allocated bits and only check the honest value.",
  ["src/gadgets/lookup.rs"],[("synth","src/gadgets/lookup.rs"),("lookup3_xy, lookup3_xy_with_conditional_negation","src/gadgets/lookup.rs")],
  ["returned numbers; constraints and witness"])
p("C10","Bit packing agrees inside and outside the circuit",
  "Packing a bit sequence into public inputs allocates one input per capacity-sized chunk and, in every satisfying assignment, each input equals the little-endian value of its chunk, which is exactly what the out-of-circuit packing of the same bits computes; the packing is injective for a known length. Byte strings convert to bits most significant first or least significant first per byte, eight bits per byte, in order.",
  ["inputs","programs"],"every bit sequence of every length (empty and non-multiples of the capacity included), every byte string",
  "The test compares one direction on random lengths below a bound in one field.",
  ["src/gadgets/multipack.rs"],[("pack_into_inputs, compute_multipacking, bytes_to_bits, bytes_to_bits_le","src/gadgets/multipack.rs")],
  ["public inputs, constraints, returned vectors"])
p("C11","Domain transforms evaluate and interpolate polynomials",
  "An evaluation domain built from any coefficient vector has the smallest power-of-two size that holds it, zero padded, and an over-long vector is rejected; its forward transform evaluates the polynomial at the successive powers of a primitive root of unity of that order, the coset transform at the same points scaled by the field generator, and the inverse transforms undo them. Results do not depend on the number of threads, pointwise product and difference and the vanishing-polynomial evaluation and division are exact.",
  ["inputs","configurations","schedules"],"every field with a two-adic root of unity, every coefficient vector, scalars or group elements, every number of threads",
  "Tests compare random vectors for a few sizes on the machine's own thread count.",
  ["src/domain.rs"],[("EvaluationDomain::{from_coeffs,fft,ifft,coset_fft,icoset_fft,distribute_powers,z,divide_by_z_on_coset,mul_assign,sub_assign}","src/domain.rs"),("best_fft, serial_fft, parallel_fft","src/domain.rs")],
  ["coefficients exposed by as_ref/into_coeffs"])
p("C12","Multi-exponentiation computes the selected sum or reports why not",
  "Multi-exponentiation returns the sum of each selected base times its exponent, bases being consumed from the source in order, one per selected position, for all exponent values. If the source runs out, or a base that must be added is the identity, an error is returned instead of a point, and the result does not depend on the number of threads.",
  ["inputs","configurations"],"every base vector and offset, every exponent vector (zero, one, maximal included), every selection",
  "The test multiplies random full-density vectors of one size; densities, offsets, special exponents and errors are not covered.",
  ["src/multiexp.rs"],[("multiexp, multiexp_inner","src/multiexp.rs"),("Exponent, Exponent::chunks","src/multiexp.rs"),("Source and SourceBuilder for (Arc<Vec<G>>, usize)","src/multiexp.rs")],
  ["value or error delivered by the waiter"])
p("C13","Query density records exactly the marked positions",
  "A density map has one position per added element, in order; marking a position (any number of times) makes exactly that position selected and changes no other, the reported total equals the number of selected positions, and iteration and size report the same map. Full density selects every position and claims no size.",
  ["histories","inputs"],"every sequence of additions and marks",
  "No test exercises the tracker directly.",
  ["src/multiexp.rs"],[("DensityTracker::{new,add_element,inc,get_total_density}, QueryDensity impls","src/multiexp.rs")],
  ["iter(), get_query_size(), get_total_density()"])
p("C14","The test constraint system gives the right verdict",
  "The testing system reports satisfied exactly when every enforced constraint holds under the current assignment, names the first one that fails, and checks public inputs against exactly the expected values in order. Reading or overwriting a named variable touches that variable only, every name (namespace path included) denotes at most one object, and the structural digest depends on every constraint term and count but not on names or assigned values (up to collisions of the hash).",
  ["inputs","histories"],"every sequence of allocations, constraints, namespace entries and assignments",
  "Two short scenario tests exercise it.",
  ["src/gadgets/test/mod.rs"],[("eval_lc, proc_lc, TestConstraintSystem::{which_is_unsatisfied,is_satisfied,verify,set,get,set_named_obj}","src/gadgets/test/mod.rs"),("compute_path","src/gadgets/test/mod.rs")],
  ["is_satisfied, which_is_unsatisfied, verify, get, panics on reuse of a name"])
p("C15","Parameter generation produces the CRS of the circuit's QAP",
  "For given trapdoors, the generated parameters contain exactly the group elements prescribed by Groth16 for the circuit's constraints together with one extra constraint per public input: verification key, H, L, IC, A and B queries, in order, with zero A/B entries omitted. A zero gamma or delta and a circuit with an unconstrained private variable are reported as errors.",
  ["programs","inputs"],"every circuit and every choice of trapdoors and generators",
  "One test checks one xor circuit over a toy engine for one set of trapdoors.",
  ["groth16/src/generator.rs"],[("KeypairAssembly::{alloc,alloc_input,enforce}","groth16/src/generator.rs"),("generate_parameters and its eval/eval_at_tau","groth16/src/generator.rs")],
  ["fields of Parameters, returned error"])
p("C16","Honest proofs verify, for every satisfiable circuit",
  "For every circuit, every satisfying witness, every parameter set generated for it with trapdoors at which neither the vanishing polynomial nor a nonzero query polynomial happens to vanish (all but a negligible fraction) and every choice of blinding scalars, proof creation succeeds and returns the unique blinded proof determined by the witness, which the verifier accepts for the corresponding public inputs. A missing witness value yields an error, not a proof.",
  ["programs","inputs"],"every circuit (including repeated and cancelling terms, unused variables in some positions, few or many constraints), witness and blinding",
  "Tests prove a handful of regular circuits; agreement between prover and generator on which query elements exist depends on the circuit's terms.",
  ["groth16/src/prover.rs","groth16/src/generator.rs","groth16/src/lib.rs"],[("eval, ProvingAssignment::{alloc,alloc_input,enforce}","groth16/src/prover.rs"),("create_proof","groth16/src/prover.rs"),("ParameterSource for &Parameters","groth16/src/lib.rs")],
  ["returned proof, verifier verdict"])
p("C17","The verifier accepts exactly the Groth16 equation",
  "Verification succeeds if and only if the number of public inputs matches the key and e(A,B) = e(alpha,beta) * e(IC0 + sum of input_i*IC_i, gamma) * e(C,delta). A wrong number of inputs is reported as an invalid key, anything else that fails as an invalid proof.",
  ["inputs"],"every key, proof (honest, mauled or arbitrary points) and input vector of any length",
  "Tests accept honest proofs and reject a few random wrong inputs.",
  ["groth16/src/verifier.rs"],[("prepare_verifying_key, verify_proof","groth16/src/verifier.rs")],
  ["returned Result"])
p("C18","Batch verification agrees with individual verification",
  "For every randomness, a batch whose items all verify individually is accepted, a batch containing an item with the wrong number of inputs is rejected as an invalid key, and the combined equation checked is the nonzero-weighted sum of all items' equations, so a batch with an invalid item is accepted only if the weights happen to cancel. No queued item is left out of the equation.",
  ["inputs","histories"],"every batch (empty, one, many; valid and invalid items in any position), every random weight",
  "Tests verify one batch of honest proofs and one with a single bad proof.",
  ["groth16/src/verifier/batch.rs"],[("Verifier::{queue,verify}, Item::verify_single","groth16/src/verifier/batch.rs")],
  ["returned Result"])
p("C19","Serialized proofs, keys and parameters round-trip and reject bad data",
  "Reading back a written proof, verification key or parameter set returns an equal value and consumes exactly what was written; a truncated stream, an invalid point encoding, or a point at infinity where the format forbids one is rejected with an error, in the right order of fields. Checked reading never accepts a point outside the group.",
  ["inputs","fault_sequences"],"every value, every truncation point, every corruption of every field",
  "Tests round-trip one value; no rejection path is tested.",
  ["groth16/src/lib.rs"],[("Proof::{write,read}, VerifyingKey::{write,read}, Parameters::{write,read}","groth16/src/lib.rs")],
  ["bytes written, value or error read"])
p("C20","Namespaces and references are transparent to the constraint system",
  "Synthesizing through any nesting of namespaces or references performs on the underlying system exactly the allocations and constraints requested, in order and unchanged, with the same returned variables and errors. Entering a namespace pushes its name once on the root and leaving it (normally or by error) pops it exactly once.",
  ["programs","histories"],"every nesting depth and sequence of operations",
  "One test nests two namespaces over the testing system.",
  ["src/lib.rs","src/gadgets/multieq.rs"],[("Namespace: ConstraintSystem, Drop","src/lib.rs"),("ConstraintSystem::namespace; ConstraintSystem for &mut CS","src/lib.rs")],
  ["calls received by the root system"])
p("N01","Worker tasks complete without deadlock or lost results under any schedule",
  "A computation handed to the worker runs exactly once and its result is delivered to the waiter whatever the pool size and backlog; waiting never deadlocks when called from outside the pool.",
  ["schedules"],"every schedule and pool size","Tests run on one pool with few tasks.",
  ["src/multicore.rs"],[("Worker::{compute,scope}, Waiter::wait","src/multicore.rs")])
p("N02","Proofs are zero-knowledge and knowledge-sound",
  "A proof reveals nothing about the witness beyond the statement, and nobody who does not know a witness can produce an accepted proof, except with negligible probability.",
  ["inputs"],"every adversary","A probabilistic, computational property.",
  ["groth16/src/prover.rs","groth16/src/generator.rs"],[("random r, s and trapdoors","groth16/src/prover.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
