#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Every honestly cast ballot is accepted",
 "For every candidate number in the election's inclusive range, every supported proof group, every admissible choice of range bounds and every outcome of the voter's randomness, the ballot the voter produces is accepted by the vote collector that uses the same public parameters. The voter always terminates with a ballot and neither side crashes.",
 ["inputs", "configurations"], "all candidates in [lo,hi], all 0<=lo<=hi<=65535, secp256k1/ristretto255/P-256/P-384, all random tapes",
 "The root package's only test does not compile, so no test casts a single ballot; even when repaired it would check two recorded ballots.",
 ["voter.go", "server.go", "elgamal.go", "main.go", "voteproof/voteproof.go", "bulletproofs/bp.go"],
 [("cast = encrypt + two range proofs + consistency proof", "voter.go:castVote"), ("collector shifts the two commitments back and verifies", "server.go:verifyVote"), ("rejection-sampling loop", "voteproof/voteproof.go:Prove")],
 ["return value of castVote", "return value of verifyVote"])

prop("C02", "A ballot encrypts exactly the chosen candidate",
 "Every ciphertext the voter produces decrypts under the election's secret key to exactly the chosen candidate, and the randomness the encryption returns opens both of its components. Encryption randomness is a fresh full-width non-zero exponent each time, so no two ciphertexts coincide, and the simulated voter's choice can be any candidate of the inclusive range and never one outside it.",
 ["inputs", "histories"], "all 16-bit choices, all election keys, all random tapes, all inclusive candidate ranges (including single-candidate ones)",
 "No test calls the encryption or decrypts anything.",
 ["elgamal.go", "voter.go", "group/modsafeprime.go"],
 [("lifted ElGamal", "elgamal.go:encryptVote"), ("choice sampling", "voter.go:castVote")],
 ["ciphertext and randomness returned by the encryption", "ciphertext inside the cast ballot"])

prop("C03", "No ballot for a value outside the candidate range is accepted",
 "The collector never accepts a ballot whose ciphertext decrypts to anything but a candidate number inside the inclusive range: values below or above it, values that only match modulo 2^16 or modulo the proof group's order, and ballots whose parts were proven for different values or for different bounds are all rejected.",
 ["inputs", "configurations"], "all out-of-range or inconsistent (ciphertext, lower proof, upper proof, consistency proof) value tuples, run through the real proving algorithms",
 "Existing tests never call the collector.",
 ["server.go", "voter.go", "bulletproofs/bp.go", "voteproof/voteproof.go"],
 [("lower and upper range proofs", "server.go:verifyVote"), ("shift back by the bounds", "server.go:verifyVote"), ("bounded integer response", "voteproof/voteproof.go:Verify")],
 ["return value of verifyVote", "decryption of the accepted ciphertext"])

prop("C04", "The parts of a ballot are bound together and tamper-evident",
 "Taking an accepted ballot and changing any single component (either ciphertext half, any group element, scalar or list entry of either range proof or of the consistency proof), exchanging components with another ballot or with each other, or re-randomising the ciphertext or commitments while adjusting the responses to match, yields a ballot the collector rejects.",
 ["inputs"], "all accepted ballots, all components, all replacement values that denote a different group element or a different residue",
 "One accepted ballot is never even constructed by the tests, let alone systematically modified.",
 ["server.go", "bulletproofs/bp.go", "bulletproofs/bip.go", "voteproof/voteproof.go"],
 [("verification equations", "bulletproofs/bp.go:Verify"), ("inner product verification", "bulletproofs/bip.go:Verify"), ("sigma verification", "voteproof/voteproof.go:Verify")],
 ["return value of verifyVote on modified ballots"])

prop("C05", "The collector judges by its own public parameters only",
 "Public parameters that travel inside a submitted ballot (bounds, challenge and secret lengths, group descriptions, commitment bases, inner-product generators) have no influence on acceptance: a ballot proven under weakened, inconsistent or attacker-chosen parameters for a false statement is rejected.",
 ["inputs", "configurations"], "all serialized ballots whose embedded parameters differ from the collector's",
 "No test decodes a ballot with altered embedded parameters.",
 ["server.go", "marshal.go", "voteproof/marshal.go", "voteproof/voteproof.go", "bulletproofs/marshal.go", "bulletproofs/bp.go", "bulletproofs/bip.go"],
 [("collector's parameter argument", "server.go:verifyVote"), ("decoder takes the range-proof parameters from the caller", "bulletproofs/marshal.go:BulletProofUnmarshalJSON")],
 ["decode + verifyVote verdict"])

prop("C06", "Fiat-Shamir challenges bind the statement and all commitments",
 "In every proof system of the repository each challenge depends on the complete statement and on every commitment sent before it, and distinct challenges are derived independently. Challenges have their full length (that of the group order in range proofs and inner-product arguments, the declared number of bits in the consistency proof), so none can be hit by trial. Consequently a prover who first learns the challenge and then picks a statement or a commitment that makes the verification equations hold is rejected.",
 ["inputs", "histories"], "all statements, all orders in which an adaptive prover fixes statement, commitments and responses",
 "Tests only run the honest order of moves.",
 ["bulletproofs/util.go", "bulletproofs/bp.go", "bulletproofs/multibp.go", "bulletproofs/bip.go", "voteproof/voteproof.go"],
 [("range proof challenges", "bulletproofs/util.go:HashBP"), ("inner product challenge", "bulletproofs/bip.go:hashIP"), ("sigma challenge", "voteproof/voteproof.go:getFSChallenge")],
 ["scalars the verifier multiplies proof elements with", "challenge inside a consistency proof", "verdict on adaptively built transcripts"])

prop("C07", "Range proofs for in-range values always verify",
 "For every supported range [0,2^n) with n in {1,2,4,8,16,32}, every group and every value in that range, the range proof produced for it verifies, and the blinding factor returned with the proof opens the proof's commitment to exactly that value.",
 ["inputs", "configurations"], "all n, all values, all groups, all random tapes",
 "Tests prove three values for n=32 on one group and one value on another.",
 ["bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/util.go", "bulletproofs/vector.go", "util/util.go"],
 [("prover", "bulletproofs/bp.go:Prove"), ("bit decomposition", "util/util.go:Decompose"), ("verifier", "bulletproofs/bp.go:Verify")],
 ["verdict of the range proof", "commitment and returned blinding factor"])

prop("C08", "A range proof that verifies commits to an in-range value",
 "No range proof verifies whose commitment contains a value outside [0,2^n): proofs generated for negative, too large or wrapped values, proofs with any altered component, proofs built from non-binary witnesses, and proofs whose inner-product part states another value, other generators or another number of rounds are all rejected.",
 ["inputs", "configurations"], "all values outside the range, all proof alterations, all adversarial witnesses of the implemented attack families, all groups and n",
 "Tests try three out-of-range values with the honest prover for n=32 on one group and never alter a proof.",
 ["bulletproofs/bp.go", "bulletproofs/bip.go", "bulletproofs/util.go"],
 [("t(x) equation, commitment equation, inner product", "bulletproofs/bp.go:Verify"), ("recursive check", "bulletproofs/bip.go:Verify")],
 ["verdict of the range proof", "value inside the commitment (transparent group)"])

prop("C09", "Aggregated range proofs verify exactly for in-range values",
 "For every number m of values that divides the bit budget n, the aggregated proof over m values that all lie in [0,2^(n/m)) verifies and its blinding factors open its commitments in order; if any value lies outside, or any component or the order of the commitments of distinct values is altered, it does not. A number of values that does not divide the budget is refused with an error rather than a crash.",
 ["inputs", "configurations"], "all n, m, value vectors, groups, random tapes",
 "The only test of aggregated proofs fails at the pinned commit.",
 ["bulletproofs/multibp.go"],
 [("aggregated prover", "bulletproofs/multibp.go:MultiProve"), ("aggregated verifier", "bulletproofs/multibp.go:Verify")],
 ["verdict of the aggregated proof", "commitments and blinding factors"])

prop("C10", "The consistency proof verifies exactly for equal secrets",
 "For all admissible parameters, the consistency proof for a secret of the declared length verifies against the ElGamal ciphertext and the two commitments that contain that secret. It does not verify if the ciphertext or either commitment contains a different secret, if the ciphertext halves use different randomness, if the integer response lies outside the interval [2^(x+c), 2^(x+c+b)), or if the challenge is not the derived one.",
 ["inputs", "configurations"], "all secrets, all parameter lengths accepted by setup, all groups, all random tapes, all one-component deviations",
 "The package has no tests.",
 ["voteproof/voteproof.go"],
 [("prover with abort", "voteproof/voteproof.go:Prove"), ("verifier", "voteproof/voteproof.go:Verify")],
 ["verdict of the consistency proof"])

prop("C11", "Published proofs leak nothing about the vote",
 "The integer response of every published consistency proof lies in the declared no-leak interval and is distributed over it independently of the secret. All blinding values behind published ciphertexts, commitments and responses are freshly drawn, full-width and not shared between components or proofs, so two ballots for the same candidate have no randomised component in common.",
 ["inputs", "histories"], "all secrets, all random tapes, all sequences of proofs and ballots",
 "No test looks at the distribution or freshness of anything.",
 ["voteproof/voteproof.go", "bulletproofs/bp.go", "bulletproofs/multibp.go", "elgamal.go", "voter.go"],
 [("rejection sampling", "voteproof/voteproof.go:Prove"), ("blinding", "bulletproofs/bp.go:Prove")],
 ["blinding values extracted from proofs through a transparent group", "responses"])

prop("C12", "Serialized ballots and proofs survive the network round trip",
 "For every supported proof group, serializing an honestly cast ballot (or a range proof, or a consistency proof) to JSON and decoding it with the collector's parameters succeeds, gives back every value unchanged (serializing again yields the same document), and leaves the verdict unchanged.",
 ["inputs", "configurations"], "all ballots and proofs over all four proof groups, all values including those with leading zero bytes",
 "One range proof on one group is round-tripped; ballots never are.",
 ["marshal.go", "bulletproofs/marshal.go", "voteproof/marshal.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/modsafeprime.go"],
 [("ballot decoder", "marshal.go:BallotDataUnmarshalJSON"), ("range proof decoder", "bulletproofs/marshal.go:BulletProofUnmarshalJSON"), ("consistency proof decoder", "voteproof/marshal.go:ProofUnmarshalJSON")],
 ["JSON bytes", "decoded values", "verdict"])

prop("C13", "Hostile serialized input is refused, never crashes the collector",
 "Decoding and verifying arbitrary attacker-supplied bytes always ends with a decoding error or a verdict, never with a crash. Whatever decodes without error consists of complete values and genuine members of the prime-order groups: missing, malformed, off-curve, out-of-field or wrong-subgroup elements are reported as errors.",
 ["inputs", "fault_sequences"], "all byte strings; in particular all structural and value mutations of valid ballots",
 "No test feeds a decoder anything but its own encoder's output.",
 ["marshal.go", "bulletproofs/marshal.go", "voteproof/marshal.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/modsafeprime.go", "server.go"],
 [("element decoders", "group/*.go:UnmarshalJSON, UnmarshalBinary"), ("structure decoders", "marshal.go, bulletproofs/marshal.go, voteproof/marshal.go")],
 ["error/verdict/panic of decode + verify", "membership of decoded elements"])

prop("C14", "Every group behaves as a prime-order group of its stated order",
 "In each implemented group addition, subtraction, negation and scaling agree with an independent reference implementation for all elements and all integer scalars, including the identity, equal and opposite operands, and zero, negative, order-sized and larger scalars. Stated order and field size are the true primes, generator and random elements are members, and equality and identity tests agree with the reference. Elements of separate instances of one group work together, and an operation given an element of a different group is refused instead of giving a result.",
 ["inputs"], "all elements, all integer scalars, all five group families (four curves, safe-prime fields of any size)",
 "Tests cover negation and order by -1 on random elements only; addition and scaling tests are commented out.",
 ["group/group.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/modsafeprime.go"],
 [("group interface", "group/group.go")],
 ["encodings of results of Element operations"])

prop("C15", "Element encodings are faithful, canonical and injective",
 "For every element of every group, however it was computed, the binary and the JSON encoding decode to an equal element, and equal elements always have identical binary, JSON and textual encodings while different elements have different ones. This includes the identity and elements whose coordinates have leading zero bytes.",
 ["inputs"], "all elements of all groups and all ways to compute them",
 "128 random elements per group are round-tripped; the secp256k1 group is excluded and leading-zero coordinates are hit only by chance.",
 ["group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/modsafeprime.go"],
 [("encoders and decoders", "group/*.go")],
 ["MarshalBinary, MarshalJSON, String, and their inverses"])

prop("C16", "Group operations change nothing but their receiver",
 "Every element operation leaves its operands, all other elements, the scalars passed in and the group's own constants (order, field size, generator, identity) unchanged, also when receiver and operands are the same element, and elements obtained from a group or from another element are independent of it from then on.",
 ["histories"], "all sequences of operations over a pool of elements, with arbitrary aliasing of receivers and operands",
 "Tests never inspect operands after an operation.",
 ["group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/modsafeprime.go"],
 [("fresh value per operation", "group/*.go")],
 ["encodings of every live element after every operation"])

prop("C17", "Commitment bases are valid, distinct and reproducible",
 "Hashing a seed to a group always gives the same element, the one its hash-to-curve function (RFC 9380, or try-and-increment for secp256k1) defines, a genuine non-identity member of the group, and different seeds give different elements. All bases in the generated parameters of a range-proof system are pairwise different, differ from the group generator, are identical in every run, none is a known combination of others, and the bases of a smaller range are a prefix of those of a larger one.",
 ["inputs", "configurations"], "all seeds, all ranges, all curve groups",
 "No test looks at the bases.",
 ["bulletproofs/bp.go", "bulletproofs/bip.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go"],
 [("hash to group", "group/*.go:MapToGroup"), ("base generation", "bulletproofs/bp.go:Setup")],
 ["elements returned by hashing", "bases in the parameters"])

prop("C18", "Setup accepts exactly the usable parameters",
 "Range-proof setup succeeds exactly for the range ends 2^1, 2^2, 2^4, 2^8, 2^16 and 2^32 and otherwise returns an error without crashing. Consistency-proof setup returns an error whenever secret, challenge and slack do not fit the stated length of the group order or the challenge hash, and with every parameter set it accepts proving and verifying work. Election setup yields parameters that agree with each other and with the groups they describe, and a challenge of at least 128 bits.",
 ["inputs", "configurations"], "all 64-bit range ends, all length triples, all curve groups",
 "Tests use two range ends and never call the other setups.",
 ["bulletproofs/bp.go", "bulletproofs/util.go", "voteproof/voteproof.go", "main.go"],
 [("range check", "bulletproofs/bp.go:Setup"), ("slack check", "voteproof/voteproof.go:Setup"), ("election parameters", "main.go:setup")],
 ["error/parameters returned by the setups"])

prop("C19", "Casting and verifying share parameters safely and repeatably",
 "Casting, verifying, encoding and decoding any number of ballots, in any order and concurrently from many goroutines over the same public parameters and the same ballots, never modifies those parameters or ballots and is free of data races. Every ballot gets the same verdict each time and on every schedule.",
 ["schedules", "histories"], "all interleavings of concurrent cast/verify/encode/decode calls, all repetition counts",
 "No test runs two operations on the same parameters concurrently or compares state before and after.",
 ["voter.go", "server.go", "bulletproofs/bp.go", "bulletproofs/bip.go", "voteproof/voteproof.go", "group/p256.go", "group/p384.go", "group/p256k1.go", "group/ristretto255.go", "group/modsafeprime.go"],
 [("no mutation of inputs", "whole verification path")],
 ["race detector reports", "encodings of parameters and ballots before and after", "verdicts"])

prop("C20", "Vector, commitment and decomposition helpers are exact",
 "The exported vector operations compute exactly the component-wise or inner-product result modulo the given modulus for all integers, commitments and multi-exponentiations equal the sum of the individually scaled elements, and digit decomposition returns digits that recompose to the number. They never modify their inputs, and those that can report errors report operands of different length as one.",
 ["inputs"], "all vectors of integers (negative, unreduced, huge), all lengths, all bases of decomposition",
 "Each helper is tested on one vector of three small numbers.",
 ["bulletproofs/vector.go", "bulletproofs/util.go", "util/util.go"],
 [("vector helpers", "bulletproofs/vector.go"), ("multi-exponentiation", "bulletproofs/util.go:VectorExp"), ("decomposition", "util/util.go:Decompose"), ("Pedersen commitment", "util/util.go:PedersenCommit")],
 ["results and inputs after the call"])

prop("C21", "The inner-product argument accepts exactly true inner products",
 "For all vectors of power-of-two length, the inner-product argument for their commitment and their true inner product verifies. It does not verify when the stated inner product, the commitment, a generator or any transmitted component is different, or when rounds are missing, added or reordered.",
 ["inputs"], "all vector pairs of length 1..64, all groups, all component alterations",
 "One vector pair of length four on one group is tested, positively only.",
 ["bulletproofs/bip.go"],
 [("recursive prover", "bulletproofs/bip.go:computeBipRecursive"), ("verifier", "bulletproofs/bip.go:Verify")],
 ["verdict of the inner-product argument"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
