#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay uniform)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IP = "inner_products/src/lib.rs"; CM = "dh_commitments/src/"; G = "ip_proofs/src/gipa.rs"
T = "ip_proofs/src/tipa/mod.rs"; S = "ip_proofs/src/tipa/structured_scalar_message.rs"
A = "ip_proofs/src/applications/groth16_aggregation.rs"; PC = "ip_proofs/src/applications/poly_commit/mod.rs"
TR = "ip_proofs/src/applications/poly_commit/transparent.rs"; SP = "sipp/src/lib.rs"; RN = "sipp/src/rng.rs"
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": observe, "hook_needed": hook}}
H = "cfg(ripp_verif): (de)serialization derives on proof structs with private fields"
props = [
p("C01", "Inner products compute exactly the sum of products",
  "The pairing, multi-exponentiation and scalar inner products return exactly the sum over i of left[i] times right[i], for every length (including 0) and whatever the number of worker threads. When the two sides have different lengths they return an error and never a value.",
  ["inputs", "configurations"], "all field/group elements (zero and identity included), every pair of lengths, every thread-pool size within the bounds",
  "The module has no unit test of its own; callers exercise one length on random non-zero data with one thread count, so chunk-boundary and length-mismatch behaviour is unobserved.",
  [IP], [("cfg_multi_pairing chunking", IP), ("InnerProduct::inner_product length checks", IP)],
  ["PairingInnerProduct::inner_product", "MultiexponentiationInnerProduct::inner_product", "ScalarInnerProduct::inner_product", "cfg_multi_pairing"]),
p("C02", "Commitments are doubly homomorphic and verify exactly",
  "Pedersen, AFGHO (both sides) and identity commitments are linear in the message and (where keyed) in the key: committing to sums and scalar multiples gives the sum and scalar multiple of the commitments. Verification accepts a commitment if and only if it is the commitment to that message under that key, key generation yields exactly the requested number of keys, independently sampled, and a message longer or shorter than the key of a Pedersen or AFGHO commitment is an error.",
  ["inputs"], "all keys, messages, scalars and claimed commitments of each size within the bounds",
  "Tests check one random message of length 8 against its commitment and one random wrong message; the homomorphic laws every argument relies on are never tested.",
  [CM + "lib.rs", CM + "pedersen/mod.rs", CM + "afgho16/mod.rs", CM + "identity/mod.rs"],
  [("DoublyHomomorphicCommitment", CM + "lib.rs"), ("IdentityOutput Add/MulAssign", CM + "identity/mod.rs")],
  ["DoublyHomomorphicCommitment::{setup,commit,verify}", "IdentityOutput add/mul"]),
p("C03", "Honest GIPA proofs always verify",
  "For every true statement over power-of-two length vectors (length 1 included), every commitment key and every digest behaviour, GIPA's prover returns a proof and the verifier accepts it against the same keys and commitments. This holds for the pairing, multi-exponentiation and scalar inner products.",
  ["inputs"], "all vectors, keys and challenge values, including zero entries and digest outputs that must be retried",
  "Tests run one random instance of length 8 with one hash; zero entries, other lengths and retried challenges are not reached.",
  [G], [("recursion of prove_with_aux", G), ("verifier folding of commitments and keys", G)], ["GIPA::prove", "GIPA::verify"]),
p("C04", "GIPA's prover refuses statements that are false or ill-formed",
  "GIPA::prove returns an error, never a proof, when the claimed inner product is not the inner product of the vectors, when any of the three commitments does not open to the vectors or the claimed value, when the vectors' length is not a power of two, or when lengths of vectors and keys disagree.",
  ["inputs"], "all vectors, keys and claimed values/commitments, any one or several of them wrong",
  "No test calls the prover on a false statement.",
  [G], [("checks at the head of prove", G)], ["GIPA::prove"]),
p("C05", "GIPA's verifier accepts exactly the proofs its relation admits",
  "Given any proof with well-formed elements, GIPA::verify returns true if and only if folding the commitments with the proof's round messages and challenges yields commitments, under the folded keys, to the proof's final left value, final right value and their inner product. Changing one element of an accepted statement (commitment or key) or of its proof makes it reject unless those equations still hold. The two key lists must have one and the same length.",
  ["inputs"], "all adversarially chosen round messages, final values, commitments and keys, for every challenge value",
  "Tests only verify honest proofs, so a verifier that skips any of its equations passes them.",
  [G], [("verify, base commitment check", G)], ["GIPA::verify"], None),
p("C06", "Challenges bind every message sent before them, with full entropy",
  "In every protocol (GIPA, TIPA, their structured-scalar variants, SIPP) each challenge comes from a digest whose input determines all of that round's prover messages and the previous challenge, and TIPA's opening challenge also determines the final commitment keys; prover and verifier derive the same challenges, also when an unusable digest output forces a retry. A challenge carries at least 128 bits of digest output.",
  ["inputs", "histories"], "any two transcripts that differ in one or more elements, at every round; every sequence of unusable digest outputs within the bound",
  "Prover and verifier in the tests are changed together, so an input dropped from the hash on both sides is invisible to completeness tests.",
  [G, T, S, SP, RN], [("Fiat-Shamir hash inputs", G), ("KZG challenge point", T), ("KZG challenge point", S), ("FiatShamirRng absorb", SP)],
  ["inputs handed to the Digest type parameter", "proof bytes"], H),
p("C07", "Challenges bind the statement being proven",
  "No challenge is drawn before the digest input determines the whole statement: for GIPA, TIPA, their structured-scalar variants and the polynomial commitments the commitments, claimed value and public scalar; for Groth16 aggregation the three proof commitments and the public inputs; for SIPP the two vectors, the coefficients and the claimed value. Otherwise a prover can choose part of the statement after seeing the challenge and have a false statement accepted.",
  ["inputs"], "any two statements that differ in one component",
  "No test builds a dishonest prover.",
  [G, T, S, A, PC, TR, SP], [("first challenge", G), ("aggregation challenge r", A), ("rng seed", SP)],
  ["inputs handed to the Digest type parameter", "verify on adaptively built proofs"], H),
p("C08", "Honest TIPA proofs always verify",
  "For every power-of-two size (1 included), every trapdoor and every pair of vectors, a TIPA proof made with an SRS and its commitment keys is accepted against the commitments, for the pairing, multi-exponentiation and scalar inner products. The same holds for every non-zero shift of the left commitment key when prover and verifier use the same shift.",
  ["inputs"], "all vectors, trapdoors, shifts and challenge values",
  "Tests run size 8 on one seed, and one shift.",
  [T], [("prove_with_srs_shift / verify_with_srs_shift", T)], ["TIPA::{setup,prove,verify,prove_with_srs_shift,verify_with_srs_shift}", "SRS::{get_commitment_keys,get_verifier_key}"]),
p("C09", "TIPA's verifier accepts exactly the proofs its relation admits",
  "Given any proof with well-formed elements, TIPA verification (with or without a shift) returns true if and only if both final commitment keys open correctly at the challenge point against the verifier key and the folded commitments open, under those final keys, to the proof's final values and their inner product. A proof made for one shift, statement or SRS is not accepted for another.",
  ["inputs"], "all adversarially chosen proofs, commitments, verifier keys and shifts",
  "Only honest proofs are verified by tests; a dropped conjunct is not noticed.",
  [T], [("verify_with_srs_shift", T)], ["TIPA::verify", "TIPA::verify_with_srs_shift"], None),
p("C10", "Honest structured-scalar proofs always verify",
  "When the right-hand vector is (1, b, b^2, ...), proofs from the structured-scalar variants of GIPA and TIPA are accepted by verifiers that are given only b, for every power-of-two size, every b (0 and 1 included), every left vector and every key or SRS.",
  ["inputs"], "all left vectors, all b, keys, trapdoors and challenge values",
  "Tests use one random b and size 8.",
  [S], [("closed form of the folded scalar", S), ("structured_scalar_power", S)], ["GIPAWithSSM::*", "TIPAWithSSM::*", "structured_scalar_power"]),
p("C11", "Structured-scalar verifiers accept exactly what their relation admits",
  "Given any proof with well-formed elements, the structured-scalar verifiers return true if and only if the folded commitments open under the final commitment key to the proof's final left value and to its product with the scalar obtained by folding (1, b, b^2, ...) and, for TIPA, the final commitment key opens correctly at the challenge point. Proofs for a vector other than the powers of b, or for a different b, are rejected.",
  ["inputs"], "all adversarially chosen proofs, commitments, keys and scalars",
  "Only honest proofs are verified by tests.",
  [S], [("verify_with_structured_scalar_message", S)], ["GIPAWithSSM::verify_with_structured_scalar_message", "TIPAWithSSM::verify_with_structured_scalar_message"], None),
p("C12", "Structured reference strings are well formed",
  "Every setup produces consecutive powers of one secret in each group, of exactly the documented number, plus the cross elements of the same two secrets, with the two secrets sampled independently; the commitment keys taken from an SRS are its even powers and the verifier key its first powers and cross elements. The public helpers that raise a generator or a scalar to consecutive powers return exactly those powers starting at exponent zero.",
  ["inputs"], "all trapdoor values and generators, each size within the bounds",
  "Tests only see the SRS through a size-8 proof, which passes for several malformed strings (for example equal or constant secrets).",
  [T, S, PC, A], [("setup", T), ("structured_generators_scalar_power", T), ("structured_scalar_power", S)],
  ["TIPA::setup", "TIPAWithSSM::setup", "KZG::setup", "BivariatePolynomialCommitment::setup", "setup_inner_product", "SRS methods"]),
p("C13", "Commitment-key openings are complete and sound",
  "The opening of a folded commitment key at any challenge point is accepted when the key is the one obtained by folding the SRS with those challenges and shift. An algebraic prover, who only knows the SRS elements, cannot get any other final key accepted at a random challenge point.",
  ["inputs"], "all challenges, shifts, points and all final keys and openings that are linear combinations of the SRS",
  "Tests check acceptance of one honest opening only through a whole TIPA run.",
  [T], [("prove_commitment_key_kzg_opening", T), ("verify_commitment_key_g1/g2_kzg_opening", T)],
  ["prove_commitment_key_kzg_opening", "verify_commitment_key_g1_kzg_opening", "verify_commitment_key_g2_kzg_opening"]),
p("C14", "KZG commitments open to the polynomial's value and nothing else",
  "For every polynomial within the key's degree, every point and every trapdoor, the opening of its commitment verifies with the polynomial's value at the point. An algebraic prover, who only knows the SRS elements, cannot open a commitment at a point to any other value, and committing or opening beyond the key's degree is refused.",
  ["inputs"], "all polynomials (zero and low degree included), points, trapdoors and algebraic proofs within the degree bound",
  "KZG is only tested inside the two-tier scheme on one random polynomial.",
  [PC], [("KZG::{commit,open,verify}", PC)], ["KZG::{setup,commit,open,verify}"]),
p("C15", "Honest SRS-based polynomial evaluation proofs always verify",
  "For every polynomial that fits the key (bivariate up to its two degrees, with a power-of-two number x_degree + 1 of rows; univariate up to the degree given at setup; lower degrees and zero included) and every point, committing, opening and verifying with the polynomial's true value succeeds. A polynomial that does not fit the key is refused at commit and open rather than silently truncated.",
  ["inputs", "configurations"], "all coefficients, points and trapdoors; every univariate degree from 0 and every bivariate degree pair within the bounds",
  "Tests use full-degree random polynomials at one degree per scheme; other degrees, in particular tiny ones and those beyond capacity, are never tried.",
  [PC], [("bivariate_degrees / bivariate_form", PC), ("BivariatePolynomialCommitment", PC)],
  ["BivariatePolynomialCommitment::*", "UnivariatePolynomialCommitment::*", "BivariatePolynomial::evaluate"], H),
p("C16", "SRS-based evaluation verifiers accept exactly what their relation admits",
  "Given any opening proof with well-formed elements, verification returns true if and only if the inner-product proof shows that the committed row commitments combine with the powers of the first coordinate to the proof's inner commitment and that this commitment KZG-opens to the claimed value at the second coordinate. In particular an honest proof is rejected for any other value, point or commitment.",
  ["inputs"], "all adversarially chosen opening proofs, commitments, points and values",
  "Only honest evaluations are verified by tests.",
  [PC], [("BivariatePolynomialCommitment::verify", PC), ("UnivariatePolynomialCommitment::verify", PC)],
  ["BivariatePolynomialCommitment::verify", "UnivariatePolynomialCommitment::verify"], H),
p("C17", "Honest transparent polynomial evaluation proofs always verify",
  "With the transparent (trapdoor-free) scheme, for every bivariate polynomial within the key's degrees (numbers x_degree + 1 and y_degree + 1 of coefficients that are powers of two) and every univariate polynomial up to the degree given at setup (lower degrees and zero included) and every point, committing, opening and verifying with the true value succeeds. A polynomial that does not fit the key is refused rather than silently truncated.",
  ["inputs", "configurations"], "all coefficients, points and keys; every univariate degree from 0 and every degree pair within the bounds",
  "Tests use full-degree random polynomials at one degree per scheme.",
  [TR], [("bivariate_degrees / bivariate_form", TR), ("BivariatePolynomialCommitment", TR)],
  ["transparent::BivariatePolynomialCommitment::*", "transparent::UnivariatePolynomialCommitment::*"], H),
p("C18", "Transparent evaluation verifiers accept exactly what their relation admits",
  "Given any opening proof with well-formed elements, transparent verification returns true if and only if both tiers' inner-product proofs hold: the committed rows combine with the powers of the first coordinate to the proof's inner commitment, and that commitment's vector combines with the powers of the second coordinate to the claimed value. In particular an honest proof is rejected for any other value, point or commitment.",
  ["inputs"], "all adversarially chosen opening proofs, commitments, points and values",
  "Only honest evaluations are verified by tests.",
  [TR], [("BivariatePolynomialCommitment::verify", TR)],
  ["transparent::BivariatePolynomialCommitment::verify", "transparent::UnivariatePolynomialCommitment::verify"], H),
p("C19", "Aggregating valid Groth16 proofs yields an accepted aggregate",
  "For every power-of-two number of Groth16 proofs (1 included) that all satisfy the Groth16 verification equation under one verifying key, with any number of public inputs, the aggregate is produced and the aggregate verifier accepts it for those public inputs in that order (for every value of the combining challenge other than the two exceptional values 0 and 1).",
  ["inputs"], "all verifying keys, proofs and public inputs satisfying the Groth16 equation, all trapdoors and challenges",
  "No test runs aggregation at all; only an example does, for one circuit.",
  [A], [("aggregate_proofs", A), ("verify_aggregate_proof", A)], ["setup_inner_product", "aggregate_proofs", "verify_aggregate_proof"]),
p("C20", "Aggregate verification rejects unless every member proof is valid",
  "An aggregate made from proofs of which at least one fails the Groth16 equation for its public inputs is rejected (except for the negligible set of challenges), and verification of an arbitrary aggregate returns true if and only if both inner inner-product proofs hold for the stated commitments and the combined pairing equation holds for the verifying key and public inputs. Changing, dropping or reordering public inputs of an accepted aggregate makes it reject.",
  ["inputs"], "all adversarially chosen aggregates, verifying keys and public inputs; every subset of invalid members",
  "No test runs the aggregate verifier.",
  [A], [("verify_aggregate_proof", A)], ["verify_aggregate_proof"], H),
p("C21", "Honest SIPP proofs always verify",
  "For every power-of-two length of at least 2 and all vectors and coefficients, the proof for the true inner pairing product is accepted (for every non-zero value of the challenges). The product-of-pairings helpers return exactly the (coefficient-weighted) product of pairings for every length and thread count.",
  ["inputs", "configurations"], "all points (identity included), coefficients (zero included), lengths, thread counts and challenge values",
  "Tests run one random instance of length 32.",
  [SP], [("SIPP::prove / verify", SP), ("product_of_pairings_with_coeffs", SP)], ["SIPP::prove", "SIPP::verify", "product_of_pairings", "product_of_pairings_with_coeffs"]),
p("C22", "SIPP's verifier accepts exactly the proofs its relation admits",
  "Given any proof with the right number of elements, SIPP verification returns true if and only if the claimed value, folded with the proof's elements and the challenges, equals the pairing of the two folded vectors. In particular a wrong claimed value, vector or coefficient is rejected for an honest proof (except for a negligible set of challenges), and a proof with another number of elements is not accepted.",
  ["inputs"], "all adversarially chosen proof elements, vectors, coefficients and claimed values",
  "The test only verifies one honest proof.",
  [SP], [("SIPP::verify", SP)], ["SIPP::verify"], H),
p("C23", "The Fiat-Shamir generator is a function of its whole absorb history",
  "Two generators that were given the same seed and the same sequence of absorbed messages produce the same stream, whatever was read from them in between; a seed or absorbed message that differs anywhere (a byte, its length, the boundary between two messages, a message added or dropped) leads to different digest inputs and hence an unrelated stream, whatever was absorbed or read before or after. Bytes drawn from the generator depend only on the latest absorbed state, and reading twice continues the stream rather than repeating it.",
  ["histories", "inputs"], "all sequences of seed, absorb and read operations within the bounds, with arbitrary byte contents",
  "No unit test covers the generator's state chaining.",
  [RN], [("from_seed / absorb", RN)], ["FiatShamirRng::{from_seed,absorb}", "RngCore methods"]),
p("C24", "Verifiers reject malformed proofs without crashing",
  "Whatever the number of rounds in a proof (none included), the GIPA, TIPA, structured-scalar, polynomial-commitment and aggregate verifiers return a verdict or an error and never panic. Verifiers that are given the commitment keys reject every proof whose number of rounds does not match the keys (and, for GIPA, refuse key lists whose lengths differ or are not a power of two), and an honest proof with rounds removed or repeated is rejected by every verifier (except for a negligible set of challenges).",
  ["inputs"], "proofs with any number of rounds within the bounds and arbitrary elements, against every statement size within the bounds",
  "Tests never hand a verifier a proof of the wrong shape.",
  [G, T, S, A, PC, TR], [("final commitment key computation", G), ("KZG challenge point", T)],
  ["GIPA::verify", "TIPA::verify", "GIPAWithSSM/TIPAWithSSM verify", "poly_commit verify", "verify_aggregate_proof"], H),
p("C25", "Serialized proofs mean the same after deserialization",
  "Serializing a GIPA, TIPA or structured-scalar TIPA proof, compressed or not, and deserializing it gives a proof that re-serializes to the same bytes and that every verifier judges exactly like the original; cloning a proof likewise. Truncated bytes are an error.",
  ["inputs"], "all proofs (honest or with arbitrary elements) of each size within the bounds, both encodings",
  "No test serializes a proof.",
  [G, T, S], [("derived CanonicalSerialize/Deserialize and manual Clone", G)], ["CanonicalSerialize / CanonicalDeserialize / Clone of the proof types"]),
p("C26", "Results do not depend on the number of worker threads",
  "Commitments, proofs and verdicts of every protocol are the same values whatever the size of the thread pool that computes them, also when the pool is larger than the vectors or does not divide their length, and also when the inner product crate is built without its parallel feature.",
  ["configurations", "inputs", "schedules"], "all inputs; each pool size within the bounds for prover and verifier independently",
  "Tests run with the default pool of the machine and compare no results across pools.",
  [IP, G, S, SP], [("cfg_iter / cfg_multi_pairing chunking", IP), ("par_iter folding", SP)], ["all prove/verify/commit entry points under rayon pools of different sizes"]),
p("C27", "Aggregate verification validates the shape of public inputs",
  "Aggregate verification returns false or an error, and neither accepts nor panics, when there are no public-input rows, when any row (not only the first) has a number of inputs other than the verifying key's, or when the number of rows is not the number of aggregated proofs.",
  ["inputs"], "every combination of row lengths and row counts within the bounds, all input values, on otherwise valid aggregates",
  "No test runs the aggregate verifier.",
  [A], [("input length check", A)], ["verify_aggregate_proof"]),
p("C28", "Setup keys are independent samples",
  "Every key element made by a setup without trapdoor (GIPA, its structured-scalar variant, the transparent polynomial commitments) is an independently sampled generator: none is trivial, repeated or computable from others, not even between the left, right and inner-product keys, between the two tiers, or between two setups drawn from one source of randomness. The same holds for the secrets of successive SRS setups and the inner-product key returned with an SRS. Each list has the requested number of elements.",
  ["inputs", "histories"], "every stream of random samples, every size within the bounds, two setups in a row",
  "Tests only use keys to prove and verify, which succeeds with related keys as well; binding does not.",
  [G, S, T, TR, CM + "lib.rs"], [("setup / random_generators", G)],
  ["GIPA::setup", "GIPAWithSSM::setup", "TIPA::setup", "TIPAWithSSM::setup", "setup_inner_product", "poly_commit setups", "KZG::setup"]),
p("C29", "Proofs are logarithmic in the size of the statement",
  "The serialized size of an honest proof is a constant plus the same amount for every doubling of the vectors, whatever the values proven: for GIPA, TIPA and their structured-scalar variants in the vector length, for Groth16 aggregation in the number of proofs (and independent of the number of public inputs), for SIPP in the number of pairings, for SRS-based openings in the number of rows (and independent of the number of columns), for transparent openings in both.",
  ["inputs"], "all statement values (special ones included) at each size within the bounds",
  "No test looks at the size of a proof.",
  [G, T, S, A, PC, TR, SP], [("one pair of messages per halving", G)],
  ["GIPA::prove", "TIPA::prove", "structured-scalar provers", "aggregate_proofs", "poly_commit open", "SIPP::prove"], H),
p("C30", "Polynomial commitments weigh every coefficient with its own key element",
  "The commitment to a bivariate polynomial, with an SRS or transparent, is exactly the two-tier commitment to its coefficient matrix: each row is committed under the first-tier key and the rows' commitments under the second-tier key, missing coefficients counting as zero. Hence commitments are linear in the polynomial, and as functions of the key those of two different polynomials differ; likewise for univariate polynomials under the keys of any setup degree.",
  ["inputs", "configurations"], "all coefficients (zero included), all keys, every shape and degree within the bounds",
  "Tests only open commitments made by the same code; they never compare a commitment with its definition.",
  [PC, TR], [("BivariatePolynomialCommitment::commit", PC), ("bivariate_form", TR)],
  ["BivariatePolynomialCommitment::commit", "UnivariatePolynomialCommitment::commit"], H),
]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for r in props: f.write(json.dumps(r) + "\n")
