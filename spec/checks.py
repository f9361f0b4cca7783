"""Which contracts decide which property, and what they leave unchecked."""
FIELD = "PrimeField implementations (bls12_381 and others): assumed to be arithmetic modulo an odd prime p > 2 (contracts in spec/prelude.vt)"
EXTRACT = "the mechanical extraction (extract/): lowers iterator chains, closures and for loops to first-order loops; the lowering rules are trusted, their output is what Verus checks"
VERUS = "Verus and Z3"
CLONE = "derived Clone implementations return an equal value"
CSIMPL = "ConstraintSystem implementations keep the trait contract of spec/cs.vt (the prover's and generator's are checked under C11, C15, C16, C20); namespaces only rename and are dropped by the extraction"
ISBIT = "operands are bits under the assignment considered; the caller's contract supplies that from the constraint that made them"
GROUP = "PrimeCurve/PrimeCurveAffine implementations: assumed to be a group of prime order p, an element's ghost value being its multiple of a fixed generator (contracts in spec/group.vt)"
PAIRING = "pairing crate: e(a*g1, b*g2) = (a*b)*e(g1, g2), the multi-Miller loop adds up its terms, == on the target group is equality of elements (contracts in spec/pairing.vt)"
NOTE = "Verus proves every function under contract for all inputs; a bounded run of the real code (labelled as such) supplies failing inputs and covers what the proof names as trusted."
BND = "Bounded stand-in only: seeded exploration of the real code against an independent oracle, never counted as proved."

def proof(*templates, trusted=(), assumptions=(), note=NOTE):
    return {"templates": list(templates), "level": "proof", "trusted": [VERUS, EXTRACT] + list(trusted), "assumptions": list(assumptions), "note": note}

def bounded(note=BND):
    return {"templates": [], "level": "exploration", "trusted": [], "assumptions": ["bounded: only the explored cases are covered"], "note": note}

CHECKS = {
    "C01": proof("lc", trusted=[FIELD], assumptions=["machine integers are not involved; Vec::push/extend as specified by vstd"]),
    "C02": proof("boolean", trusted=[FIELD, CLONE, CSIMPL], assumptions=[ISBIT]),
    "C03": proof("num", trusted=[FIELD, CLONE, CSIMPL], assumptions=[ISBIT]),
    "C04": proof("bitdec", trusted=[FIELD, CLONE, CSIMPL, "iterating a representation most significant bit first (RevBits)"], assumptions=["odd prime modulus"]),
    "C05": proof("uint32", "uadd", trusted=[FIELD, CLONE, CSIMPL, "std: u32::rotate_right, slice::reverse, slice::to_vec, u32::MAX"], assumptions=[ISBIT]),
    "C06": proof("multieq", trusted=[FIELD, CLONE, CSIMPL, "Drop::drop is called by the extraction where the value goes out of scope"], assumptions=["widths declared to enforce_equal fit in the field (num_bits + 1 < NUM_BITS), which every caller's contract shows", "the flush counter, used for names only, does not overflow usize"]),
    "C09": proof("lookup", trusted=[FIELD, CSIMPL], assumptions=[ISBIT, "collecting references to the table entries yields those entries in order (vcollect_refs)"]),
    "C13": proof("density", trusted=["bitvec::BitVec is a sequence of bits (new, push, get, set, len, count_ones, iter)", "std::iter::repeat repeats its value"], assumptions=["callers of inc mark an existing position (otherwise it panics)"]),
    "C12": proof("source", "multiexp", trusted=[FIELD, GROUP, "PrimeFieldBits::to_le_bits returns the little-endian bits of the value (at most 2^30 of them, at least the bits of the modulus)", "bitslice chunks(c) cuts into consecutive pieces of c bits, the last possibly shorter", "rayon into_par_iter().step_by().enumerate().map().collect() yields the results in order", "Worker::compute runs the closure once and Waiter hands back its value", "ceil(ln(len)) of 32 <= len < 2^32 lies in 4..=23 (f64)", "Arc is transparent", "zipping with QueryDensity::iter yields the density's bits in order (for both implementations that is C13's contract)"], assumptions=["fewer than 2^32 exponents", "the query size equals the number of exponents (documented caller obligation)", "which error is returned (identity point or end of file) is decided by Source's contract, per add/skip"]),
    "C17": proof("verifier", trusted=[FIELD, GROUP, PAIRING, "slices hold fewer than usize::MAX elements"], assumptions=["the key passed to verify_proof was prepared from some key by prepare_verifying_key (whose contract is proved)"]),
    "C18": proof("batch", trusted=[FIELD, GROUP, PAIRING, "slices hold fewer than usize::MAX elements", "Field::random may return anything; the loop that draws a nonzero weight is not shown to end"], assumptions=["verify_multicore is behind a feature the groth16 crate does not define, so it is not compiled and not covered", "the From<(&Proof, &[Fr])> conversion clones both parts (bounded harness only)"]),
    "C20": proof("namespace", trusted=["Rust runs Drop::drop exactly once when a value goes out of scope, also on early return", "the trait ConstraintSystem is split in two in the verified text (NamespaceStack: push/pop; the rest) and the provided method namespace put in an extension trait, because the verifier rejects a trait whose associated type is bounded by the trait itself; method bodies are the source's"], assumptions=["implementations of the trait by the caller's own types keep to get_root giving the root (law_* of spec/namespace.vt)"]),
    "C11": proof("fft", "pfft", "domain", trusted=[FIELD, "ff constants: ROOT_OF_UNITY has order exactly 2^S with S <= 32, MULTIPLICATIVE_GENERATOR is nonzero and its order is not a power of two below 2^S", "Worker::scope runs every spawned closure once before it returns; its chunk size is at least 1 and at most the length (property N01)", "slice::swap, chunks_mut, Vec::resize as in std", "CofactorCurve elements are multiples of a generator (Point)"], assumptions=["domains of at most 2^31 entries (follows from S <= 32)", "usize is 64 bits"]),
    "C15": proof("kp", "gen", "params", trusted=[FIELD, GROUP, "Wnaf: scalar(s) of a table made for g is s*g; Curve::batch_normalize returns the same points", "Worker::scope runs every spawned closure once before it returns (property N01)", "ff constants (see C11)"], assumptions=["a Circuit speaks to the constraint system through its interface only and allocates before it uses: the generator and any other recorder are told the same continuation (spec/circuit.vt)", "fewer than 2^60 constraints and 2^59 variables", "generate_random_parameters only draws the trapdoors and calls generate_parameters (bounded harness)"]),
    "C16": proof("peval", "create", "honest", trusted=[FIELD, GROUP, PAIRING, "std BTreeMap behaves as a finite map; iterating it visits every key once", "derive(Clone) of VerifyingKey and Arc::clone give the same value", "Worker::compute/Waiter::wait hand back the closure's value (contract of multiexp, C12)", "multiexp, EvaluationDomain, DensityTracker, ParameterSource for &Parameters, generate_parameters and verify_proof enter by their contracts, proved under C12, C11, C13, here, C15 and C17", "ff constants (see C11)"], assumptions=["a Circuit speaks to the constraint system through its interface only (spec/circuit.vt); fewer than 2^32 private variables", "completeness is for trapdoors outside the finitely many exceptional values, stated as `lucky` (the weights of wires that occur do not vanish, tau is no root of the domain's polynomial, nothing is zero)", "that the proof's distribution hides the witness is not a functional property: only that a and b carry r*delta and s*delta is shown"]),
    "C19": proof("serial", trusted=["std and byteorder: read_exact, write_all, read_u32/write_u32 in big endian, as the traits Read and Write of spec/serial.vt say; Read/Write for &mut R forward (the verified text takes the stream by &mut, the source by value)", "encodings of group elements: fixed size, decoding an encoded group element gives it back, checked decoding accepts nothing but encodings of group elements (ax_enc)", "== on group elements, vectors and Arcs of them is equality"], assumptions=["every query has fewer than 2^32 elements (write truncates its length to 32 bits)"]),
    "C07": proof("sha256", trusted=[FIELD, CLONE, CSIMPL, "std: u32::rotate_right, slice::reverse, slice::to_vec, Vec::append", "the constraint system behind a reference is moved into the MultiEq and back when that is dropped; on an early error return nothing is said about what was enforced"], assumptions=[ISBIT, "the field has at least 64 bits (Scalar::NUM_BITS, documented precondition of UInt32::addmany)", "inputs of fewer than 2^63 - 2^16 bits; usize is 64 bits", "UInt32 operations and MultiEq enter by their contracts, proved under C05 and C06"]),
    "C08": proof("blake2s", trusted=[FIELD, CLONE, CSIMPL, "byteorder: LittleEndian::read_u32; std: u32::rotate_right, slice::to_vec", "the constraint system behind a reference is moved into the MultiEq and back when that is dropped; on an early error return nothing is said about what was enforced"], assumptions=[ISBIT, "the field has at least 64 bits (Scalar::NUM_BITS, documented precondition of UInt32::addmany)", "usize is 64 bits", "UInt32 operations and MultiEq enter by their contracts, proved under C05 and C06"]),
    "C10": proof("multipack", trusted=[FIELD, CSIMPL], assumptions=[ISBIT]),
}
for k in ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"]:
    CHECKS.setdefault(k, bounded())
