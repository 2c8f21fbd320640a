# The properties, in one place: writes properties.jsonl and MANIFEST.json.
# python3 tools/props.py
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, technique=technique, note=note, observe=observe or []))

B = ["bls/bls.go"]; RB = ["ringsig/blsag/blsag.go"]
ML = ["mlsag/mlsag.go", "mlsag/proof.go", "mlsag/dualkey.go", "mlsag/pubkeys.go", "mlsag/responses.go"]
RP = ["rangeproof/rangeproof.go", "rangeproof/poly.go", "rangeproof/bitCommitment.go", "rangeproof/debug.go"]
IP = ["rangeproof/innerproduct/innerproduct.go"]; PE = ["rangeproof/pedersen/pedersen.go"]
MK = ["merkletree/merkletree.go"]; HA = ["hash/hash.go"]

prop("C01", "BLS multisignatures verify exactly for their signers and message",
 "A multisignature verifies against an aggregated key and a message if and only if the multiset of keys aggregated is the multiset of keys that signed that message, whatever the order, grouping, repetition and the form (object, bytes, compressed, copy) in which keys and signatures were aggregated. Aggregation is commutative and associative, also when the same key or signature occurs more than once.",
 ["histories", "inputs"], "every history of creating, aggregating, copying, encoding and decoding keys and signatures; every multiset of signers and of keys",
 "The tests aggregate two or three distinct fresh keys in one order; equality of intermediate points, repetition and other groupings never occur.",
 B, [("Apk.Aggregate / Signature.Aggregate / Add / AggregateBytes", "bls/bls.go"), ("Verify", "bls/bls.go")],
 "model_checking", "explicit-state exploration of aggregation histories; every model trace replayed on the real code", "Exhaustive for 3 keys, 2 messages, the history depth and multiset sizes in the evidence; trusts bn256's group law and pairing.")
prop("C02", "BLS batch verification accepts exactly the fully valid batches",
 "A batch verification succeeds only if the batch is not empty, there are as many keys as messages, the messages are pairwise distinct (unless repetition is explicitly allowed), and the signature is the aggregate of a valid signature of every key on the message at the same place. It accepts every such batch, in any order, and never crashes on any other.",
 ["inputs"], "every batch length, order, equality pattern among the messages and single corruption of a batch",
 "The tests verify one good batch and one with a repeated message; empty and unequal batches, permutations and partial corruption are not reached.",
 B, [("VerifyBatch / VerifyUnsafeBatch / VerifyCompressed / distinct", "bls/bls.go")],
 "model_checking", "exhaustive enumeration of batches against a symbolic batch model, replayed on the real code", "Exhaustive for batches up to the length in the evidence over 4 keys and 4 messages; trusts bn256's pairing.")
prop("C03", "BLS multisignatures resist rogue keys",
 "Nobody who chooses their own public key as any combination of other members' keys, without those members signing, can produce a multisignature that verifies against an aggregated key containing those members. The coefficient under which a key enters an aggregate depends on the whole key.",
 ["inputs"], "every attacker key in a family of linear combinations of honest keys, every key list and every signature the attacker can compute",
 "The tests contain one rogue-key attempt with one combination; the other combinations and aggregation paths are not tried.",
 B, [("h1 / pkt / apkSigWrap", "bls/bls.go")],
 "exploration", "exhaustive enumeration of bounded linear rogue-key strategies executed on the real code", "All attacker strategies of the enumerated linear family fail; strategies outside it rest on the hardness of discrete logarithms.")
prop("C04", "A BLS signature binds its message and its key",
 "A signature verifies under one key and one message only: under any other message, however close (extended, truncated, one bit or byte changed, of another length), any other key, or for any transformed signature, verification fails.",
 ["inputs"], "every message length and every neighbouring message, every ordered pair of keys, every small transformation of the signature",
 "The tests use one random message and one wrong key; messages differing only past a block boundary or in a late byte are not tried.",
 B, [("h0", "bls/bls.go"), ("verify", "bls/bls.go")],
 "exploration", "exhaustive enumeration of neighbouring messages, keys and signature transforms on the real code", "Exhaustive over the neighbour relations and lengths in the evidence. One genuine defect is recorded as a known finding (messages are mapped to the group through a known logarithm).")
prop("C05", "BLS encodings round-trip and reject corruption",
 "Encoding a key, aggregated key or signature in any offered form and decoding it again yields an equal object, for every object including every sign of a compressed coordinate. No other bytes decode to the same object: none with anything missing, inserted or altered, down to bits and multiples of the modulus that the arithmetic below ignores. A failed decoding reports an error and leaves the receiver as it was.",
 ["inputs", "fault_sequences"], "every element in a large enumerated set, every form of encoding, every truncation and every single-bit corruption, and every other way to write the same numbers",
 "The tests round-trip one random element per form; compression succeeds or fails depending on the coordinate, and corruption is not tried.",
 B, [("Marshal / Unmarshal / Compress / Decompress / MarshalText / UnmarshalText", "bls/bls.go")],
 "exploration", "exhaustive truncation and bit-flip enumeration with round trips over enumerated points", "Exhaustive over single-bit and truncation faults of the listed elements; bytes after the end of an encoding are not claimed.")
prop("C06", "BLS operations leave their other operands unchanged",
 "Aggregating, adding, copying, batching, encoding and verifying change nothing but the object they are documented to change: every other key or signature, and every copy or result made earlier, keeps its value and its encoding. A returned object never shares state with an argument.",
 ["histories"], "every history of operations over a set of keys, aggregated keys and signatures",
 "The tests use each object once or twice; aliasing shows only when an object is used again after a result made from it was changed.",
 B, [("Copy / Aggregate / UnsafeAggregate / UnsafeBatch / AggregateApk", "bls/bls.go")],
 "model_checking", "explicit-state exploration of operation histories against a symbolic-value model", "Exhaustive to the history depth in the evidence over 10 objects and two keys.")
prop("C07", "BLS key generation uses its entropy source faithfully",
 "Key generation yields a secret and public key that belong together, as a function of the bytes read from the given source: different bytes give different keys, and the same bytes the same. When the source fails or runs dry it reports an error and yields no key, whatever way the source delivers its bytes.",
 ["fault_sequences", "inputs"], "every sequence of reader answers (errors, short reads, end of file) and every length of source",
 "The tests read from the system's source, which never fails nor returns few bytes.",
 B, [("GenKeyPair", "bls/bls.go")],
 "fault_enumeration", "exhaustive enumeration of reader-answer sequences (fault injection) on the real code", "Exhaustive to the depth in the evidence; failures of the system's own source end a Go process and are outside the property.")
prop("C08", "Every bLSAG ring signature made verifies, with the ring asked for",
 "A ring signature made with any secret key, any list of decoys (none, repeated, or the signer's own key among them) and any message verifies for that message, wherever in the ring the signer ended up. Its ring is exactly the signer's key and the decoys given, and neither the decoy list, the message nor the memory around them is changed or shared, by signing or verifying.",
 ["inputs", "configurations"], "every ring size, signer position, decoy-list shape, message and special secret key",
 "The tests sign with one ring size and whatever position the run happens to draw.",
 RB, [("Sign", "ringsig/blsag/blsag.go")],
 "model_checking", "exhaustive enumeration of (ring size, position, shape, message) with controlled entropy, real code against a ring model", "Exhaustive to the ring size in the evidence; the signer's position is driven through the entropy source until every position was visited.")
prop("C09", "A bLSAG signature cannot be forged or altered",
 "Verification accepts only if whoever signed knows the secret key of a ring member and signed exactly that message, ring and key image: any change to message, ring, order, image, challenge or responses, any proof by an outsider, and any malformed signature (empty, unequal lengths, points that are no group elements) is rejected without a crash.",
 ["inputs"], "every single-component corruption for every ring size and position, every strategy of a cheating prover",
 "The tests alter at most one field of one signature; malformed structures and dishonest provers are not tried.",
 RB, [("Verify / computeCLR", "ringsig/blsag/blsag.go")],
 "exploration", "exhaustive enumeration of corruptions and cheating-prover strategies against the real verifier", "All enumerated strategies fail for the ring sizes in the evidence; beyond them the claim rests on discrete logarithms.")
prop("C10", "Every MLSAG signature made verifies, with the ring asked for",
 "A dual-key signature made with non-zero secrets, any number of decoys (also none), any message and any subtraction of commitments verifies with the key image returned, wherever the signer ended up. Its ring is exactly the decoys given, with the commitment subtracted where asked, and the signer's keys; zero secrets and key vectors of unequal length are refused with an error. Neither signing nor verifying changes the message or the memory around it.",
 ["inputs", "configurations"], "every decoy count, signer position, way of building the prover, message and special secret",
 "The tests use one ring size and the position the run draws; a ring of one, and other construction orders, are not reached.",
 ML, [("DualKey.Prove / Proof.prove / shuffleSet", "mlsag/dualkey.go, mlsag/mlsag.go, mlsag/proof.go")],
 "model_checking", "exhaustive enumeration of (ring size, position, construction mode, message) with controlled entropy, real code against a ring model", "Exhaustive to the ring size in the evidence.")
prop("C11", "An MLSAG signature cannot be forged or altered",
 "Verification accepts only if whoever signed knows all secret keys of one ring member and signed exactly that message, key matrix and key image: any change to any component or bit of the signature, any proof by someone who knows only some of a member's keys, and any malformed signature is rejected without a crash. Acceptance and error are never reported together.",
 ["inputs"], "every single-component corruption and wire bit for every ring size and position, every strategy of a cheating prover",
 "The tests change one field of one signature; malformed matrices and dishonest provers are not tried.",
 ML, [("Signature.Verify / generateChallenge", "mlsag/mlsag.go")],
 "exploration", "exhaustive enumeration of corruptions, wire bit flips and cheating-prover strategies against the real verifier", "All enumerated strategies fail for the ring sizes in the evidence; beyond them the claim rests on discrete logarithms.")
prop("C12", "Ring signatures by the same key are linkable, by others not",
 "The key image of a ring signature (both schemes) is a function of the signing key alone: the same for every ring, message, position and commitment, different for different keys. No signature verifies with any image other than the key's own, even if the signer tries to use another.",
 ["inputs", "configurations"], "every key, ring size, position, message and decoy set; every wrong image of an enumerated family",
 "The tests compare no images between signatures; double spending with a second image is not attempted.",
 RB + ML, [("I = x·Hp(P)", "ringsig/blsag/blsag.go:Sign"), ("CalculateKeyImage", "mlsag/mlsag.go")],
 "model_checking", "exhaustive enumeration of (scheme, key, ring size, message, position) and wrong-image strategies on the real code", "Exhaustive for the bounds in the evidence; wrong images from a family of 12 relations.")
prop("C13", "Ring signatures do not give away the signer",
 "Where the signer stands in the ring is drawn from entropy, not from the clock or the arguments, and every position occurs about equally often. Every challenge, nonce and response is non-zero, full-size and fresh in every signature, the signer's like the decoys', so nothing in a signature marks the signer and no two signatures share a nonce.",
 ["histories", "configurations"], "every ring size, with the clock standing still and running, over long runs of signings",
 "The tests look at one signature at a time under a running clock; a position that is a function of time, a constant response or a repeated nonce passes them.",
 RB + ML, [("position / responses / nonces", "ringsig/blsag/blsag.go:Sign, mlsag/proof.go:shuffleSet, mlsag/mlsag.go:generateNonces/generateResponses")],
 "exploration", "exhaustive runs per ring size and clock mode under controlled entropy and a frozen clock, every signature opened with the secret key", "Decides the enumerated observers for runs of the stated length; it is not a proof of indistinguishability.")
prop("C14", "MLSAG provers and signatures are isolated from one another",
 "A prover works on its own copy of the decoys: subtracting a commitment or proving never changes the decoy objects of the caller, another prover sharing them, or a signature made before. A signature, once made, keeps its encoding and still verifies whatever is done with the prover or the decoys later.",
 ["histories"], "every history of adding decoys, subtracting commitments, setting messages, proving and verifying with two provers that share decoys",
 "Each test uses one prover once.",
 ML, [("AddDecoy / SubCommToZero / prove", "mlsag/proof.go, mlsag/dualkey.go, mlsag/mlsag.go")],
 "model_checking", "explicit-state exploration of operation histories over two provers against a value model", "Exhaustive to the history depth in the evidence.")
prop("C15", "MLSAG signatures survive encoding, and no other bytes pass",
 "Decoding an encoded signature, with or without keys, yields an equal signature that verifies alike, also when the receiver was used before and when the reader returns few bytes at a time. Every truncation, every reader or writer failure, every invalid point and every other way to write the same numbers is reported as an error.",
 ["fault_sequences", "inputs"], "every ring size, truncation point, reader and writer failure point, receiver state",
 "The tests round-trip one signature through a perfect buffer.",
 ML, [("Signature.Encode / Decode, PubKeys.Encode / Decode, Responses.Encode / Decode", "mlsag/")],
 "fault_enumeration", "exhaustive enumeration of truncations and I/O failure points on the real codec", "Exhaustive for the ring sizes in the evidence.")
prop("C16", "Every in-range vector of values has a verifying range proof",
 "For every list of 1 to 16 values in [0, 2^64) proving succeeds and yields a proof that verifies, whose first commitments are to the values given in their order, padded to a power of two with commitments to zero, each opened by the returned blinding factor. Proving refuses empty and overlong lists with an error and does not change the caller's memory; debugging makes no difference.",
 ["inputs"], "every boundary value and bit pattern, every vector over boundary values, every aggregate size",
 "The tests prove a few random small values; values at bit boundaries, the maximum and uneven aggregate sizes are not reached.",
 RP, [("Prove / computeA / computePoly", "rangeproof/")],
 "model_checking", "exhaustive enumeration of boundary values and aggregate shapes, proofs replayed through the real and an independent verifier's equations", "Exhaustive over boundary values 2^k and 2^k-1, sizes 1..16 and small vectors over boundary values; ristretto arithmetic trusted.")
prop("C17", "No range proof exists for a value out of range",
 "No proof that verifies can be obtained for a commitment to a value outside [0, 2^64), at any place of an aggregate: neither from the prover itself nor from a prover that deviates from the protocol, choosing false digits or any element after seeing the challenges it should precede.",
 ["inputs"], "every out-of-range boundary value, place and aggregate size; every strategy of a cheating prover",
 "The tests try a few values slightly out of range with the honest prover; a dishonest prover is not tried at all.",
 RP + IP, [("Verify: Fiat-Shamir transcript and mega check", "rangeproof/rangeproof.go")],
 "exploration", "exhaustive enumeration of cheating-prover strategies (transcript omissions, false digits) against the real verifier", "All enumerated strategies fail; beyond them the claim rests on discrete logarithms.")
prop("C18", "An altered or malformed range proof is rejected",
 "Changing any commitment, point, scalar, round or bit of a valid proof, swapping parts between proofs, or adding or dropping commitments or rounds makes verification fail. No structure of a proof, however malformed, makes the verifier crash or accept.",
 ["inputs", "fault_sequences"], "every single-component corruption and every wire bit of proofs of several sizes",
 "The tests verify good proofs and one or two bad values.",
 RP + IP, [("Verify", "rangeproof/rangeproof.go")],
 "fault_enumeration", "exhaustive enumeration of component corruptions and wire bit flips against the real verifier", "Exhaustive for the proof sizes in the evidence; bits that ristretto's decoders ignore are excluded.")
prop("C19", "Range proof verification does not depend on history",
 "The verdict on a proof, and the validity of a proof made, depend on the arguments alone, never on what was proved or verified before in the process, nor on failed attempts.",
 ["histories"], "every history of proving and verifying aggregates of different sizes, valid and invalid",
 "Each test proves and immediately verifies one proof, so state left behind is always the fitting one.",
 RP, [("number of values per proof", "rangeproof/rangeproof.go")],
 "model_checking", "explicit-state exploration of prove/verify histories on the real code", "Exhaustive to the history depth in the evidence over 9 operations.")
prop("C20", "Range proofs are freshly blinded and hide their values",
 "Every proof draws its own blinding: no published element and no blinding factor repeats, within a proof or between proofs, even of equal values. None of the relations an observer could test without the blinding factors tells the value.",
 ["histories", "inputs"], "every aggregate size, run of proofs and enumerated observer",
 "The tests never compare two proofs.",
 RP + PE, [("blinding in computeA / computeS / T1 / T2 / CommitToScalar", "rangeproof/, rangeproof/pedersen/")],
 "model_checking", "exhaustive pairwise comparison of proof elements over controlled entropy streams; enumerated distinguishers", "Decides the enumerated observers; zero knowledge itself is not proved.")
prop("C21", "Range proofs survive encoding, and no other bytes pass",
 "Decoding an encoded range proof, inner product proof or list of commitments yields an equal one, that verifies alike, whatever the number of commitments and rounds. Every truncation, every excess or missing round, every invalid point, every other way to write the same numbers, and every reader or writer failure is reported as an error.",
 ["fault_sequences", "inputs"], "every shape, truncation point, excess length, slot for an invalid point, I/O failure point",
 "The tests round-trip one proof through a perfect buffer.",
 RP + IP + PE, [("Encode / Decode", "rangeproof/rangeproof.go, innerproduct.go, pedersen.go")],
 "fault_enumeration", "exhaustive enumeration of truncations, invalid points and I/O failure points on the real codecs", "Exhaustive for the shapes in the evidence.")
prop("C22", "Inner product proofs are complete, sound and total",
 "For any two vectors of equal power-of-two length a proof is made that verifies for exactly the committed point, bases and factors; any alteration of the proof or of the statement is rejected. Vectors that are empty, unequal or of another length are refused with an error, the arguments are never modified, and the verifier never crashes.",
 ["inputs"], "every pair of small vectors, every corruption and every mismatch of lengths",
 "The tests prove random vectors of one length and verify only good proofs.",
 IP, [("Generate / VerifScalars / Verify", "rangeproof/innerproduct/innerproduct.go")],
 "exploration", "exhaustive enumeration of small vectors, corruptions and argument shapes on the real code", "Exhaustive for lengths 1, 2, 4 over a small alphabet and single corruptions up to the length in the evidence.")
prop("C23", "Pedersen commitments are the stated linear form, freshly blinded",
 "A commitment to a scalar or to vectors is exactly the value times the bases plus the returned blinding factor times the blinding base, for every number and length of vectors and however many bases were computed before; equal values get different commitments. Distinct vectors and positions use distinct bases, and neither the seed, the vectors nor the memory around them is modified.",
 ["inputs", "histories"], "every shape of vectors, in sequence on one object, every seed layout",
 "The tests commit once and check non-zero results.",
 PE + ["rangeproof/generators/generator.go"], [("CommitToScalar / CommitToVectors", "rangeproof/pedersen/pedersen.go")],
 "exploration", "exhaustive enumeration of vector shapes and object histories against an independent commitment model", "Exhaustive for the shapes in the evidence; at most 256 vectors per commitment.")
prop("C24", "Vector arithmetic over scalars and points is exact",
 "Every vector operation returns the mathematically defined result modulo the group order for all lengths and values, zero and empty included, reports an error exactly when the lengths do not fit, never modifies its arguments and never returns memory shared with them (except splitting).",
 ["inputs"], "every pair of short vectors over an alphabet with zero, one and minus one, for every operation",
 "The tests check one or two fixed vectors per operation and no zero scalars.",
 ["rangeproof/vector/vector.go"], [("all functions", "rangeproof/vector/vector.go")],
 "exploration", "exhaustive enumeration of short vectors for every operation against arbitrary-precision arithmetic", "Exhaustive for the lengths and alphabet in the evidence.")
prop("C25", "Generators and transcript hashes are functions of their history",
 "The n-th generator depends on the seed alone, not on the steps in which generators were computed, and distinct seeds and positions give distinct generators. A transcript challenge is a function of exactly the bytes appended since the last clearing, in order; deriving neither changes the transcript nor depends on how it was built.",
 ["histories"], "every history of generator and transcript operations up to a depth",
 "The tests compute once and compare two runs.",
 ["rangeproof/generators/generator.go", "rangeproof/fiatshamir/fiatshamir.go"], [("Generator.Compute / Iterate", "generator.go"), ("HashCacher", "fiatshamir.go")],
 "model_checking", "explicit-state exploration of operation histories against a sequence model", "Exhaustive to the depth in the evidence.")
prop("C26", "The bit decomposition of a value is its binary form",
 "A value's bit commitment holds exactly its 64 binary digits, lowest first, and their complements minus one, for every 64-bit value; the self-check accepts exactly this decomposition.",
 ["inputs"], "every small value, every value with few bits set or cleared, every run of ones, every wrong digit",
 "The tests decompose one or two numbers.",
 ["rangeproof/bitCommitment.go"], [("BitCommit / Ensure / Debug", "rangeproof/bitCommitment.go")],
 "model_checking", "exhaustive enumeration of values and wrong digits against integer arithmetic", "Exhaustive for the families in the evidence.")
prop("C27", "A Merkle tree's root and structure are those of its payloads",
 "The tree over a list of payloads has the root, node hashes, leaves, padding marks and parent-child links defined by pairwise SHA3-256 hashing with the last node repeated on odd levels, for every number of payloads and every length and memory layout of the payloads' hashes; it is verified as intact and contains every payload. An empty list is refused, and building or verifying never writes to the payloads' memory.",
 ["inputs"], "every number of payloads, sequence over small alphabets, combination of hash lengths, and memory layout",
 "The tests use a handful of fixed trees whose hashes are exact-size slices.",
 MK + HA, [("NewTree / create / createIntermediate", "merkletree/merkletree.go")],
 "model_checking", "exhaustive enumeration of payload lists and layouts, every node compared with a reference tree", "Exhaustive for the sizes and alphabets in the evidence.")
prop("C28", "A Merkle tree notices every change to its content",
 "A tree is reported intact exactly when the root recomputed from its payloads as they are now is the root reported; a payload is reported contained only if it is a leaf now and no recorded hash above it was altered. A payload whose hash cannot be computed makes every operation that needs it report an error, never a verdict.",
 ["inputs", "fault_sequences"], "every pair of contents (then, now), every altered root bit, path hash and payload, every failing hash computation",
 "The tests tamper with one or two fields of fixed trees; failing payloads do not occur.",
 MK, [("VerifyTree / VerifyNode / VerifyContent", "merkletree/merkletree.go")],
 "fault_enumeration", "exhaustive enumeration of alterations and failing hash computations on the real tree", "Exhaustive for the tree sizes in the evidence.")
prop("C29", "Rebuilding a Merkle tree equals building it anew, or changes nothing",
 "After any history of rebuilds, with the same or other payloads, the tree is indistinguishable from one newly built over the payloads last used; a rebuild that fails leaves the tree as it was. Other trees, the caller's payload list and the payloads' memory are unaffected.",
 ["histories", "fault_sequences"], "every history of rebuilds, failed rebuilds and payload changes up to a depth",
 "The tests rebuild once and compare the root.",
 MK, [("RebuildTree / RebuildTreeUsing", "merkletree/merkletree.go")],
 "model_checking", "explicit-state exploration of rebuild histories with fault injection against a model tree", "Exhaustive to the history depth in the evidence.")
prop("C30", "Digests and checksums are the standard ones for every input",
 "SHA3-256/512, BLAKE2b-256/512 and 64-bit xxHash digests equal the published algorithms for every input length and content, independently of other calls, without touching the input; a hash function's failure is reported as an error with no digest. The checksum is the first four digest bytes, and comparison succeeds exactly for the right value.",
 ["inputs"], "every length across block boundaries, several contents, every order of calls, every nearby checksum and single-bit corruption",
 "The tests of the package check only random bytes; no digest value is compared with the standard.",
 HA, [("Sha3256 / Sha3512 / Blake2b256 / Blake2b512 / Xxhash / PerformHash / Checksum / CompareChecksum", "hash/hash.go")],
 "exploration", "exhaustive enumeration of lengths, call orders and near-miss checksums against independent reference algorithms", "Exhaustive for the lengths in the evidence.")
prop("C31", "Random bytes are all drawn fresh from the system's source",
 "A request for n random bytes returns exactly n bytes, every one of them determined by fresh bytes of the system's entropy source, also when the source delivers a few bytes at a time. Results of different calls are independent and share no memory.",
 ["inputs", "fault_sequences"], "every request size, entropy stream and delivery pattern of the source",
 "The tests check the length of a few requests only.",
 HA, [("RandEntropy", "hash/hash.go")],
 "exploration", "exhaustive enumeration of request sizes and delivery patterns with a controlled entropy source", "Exhaustive for the sizes in the evidence over 16 entropy streams.")
prop("C32", "Concurrent use gives the results of separate use",
 "Any number of operations that do not modify their arguments (signing, verifying, proving, hashing, encoding, comparing, copying, aggregating into an object of one's own) may run at the same time, on shared or on different keys, signatures, proofs, trees and buffers: under every interleaving each gives exactly the result it gives alone, no shared object changes, and no two touch the same memory with one of them writing.",
 ["schedules"], "every interleaving of two (thorough: also three) operations at statement granularity up to the preemption bound, for every pair of operations of a package",
 "The tests are sequential; a conflict shows only if two goroutines use a new object within nanoseconds of each other.",
 B + RB + ML + RP + IP + PE + MK + HA, [("every exported operation", "all packages"), ("point normalisation on encoding", "bls/bls.go")],
 "model_checking", "stateless preemption-bounded schedule exploration of the instrumented real code under a controlled scheduler, with a happens-before monitor", "Both orders and one preemption at every statement (thinned in the quick tier), two at selected ones; the race detector on both orders shows that interleavings not executed are equivalent.")
prop("C33", "Equality predicates hold exactly for equal objects",
 "Two signatures, key vectors, response vectors, commitments or proofs are reported equal exactly when all their components are equal (leaving out keys or commitments, and nothing else, where asked), whatever their shapes; the comparison is symmetric and never crashes.",
 ["inputs"], "every ordered pair of objects over all small shapes and single-component differences",
 "The tests compare an object with its own copy.",
 ML + RP + IP + PE, [("Equals / EqualValue", "mlsag/, rangeproof/, innerproduct/, pedersen/")],
 "exploration", "exhaustive enumeration of ordered object pairs against componentwise equality", "Exhaustive over the object spaces in the evidence; non-group points excluded.")
prop("C34", "Bytes from outside never crash or exhaust the receiver",
 "Decoding any byte string as a key, signature, commitment list or proof, and verifying, encoding or comparing what was decoded, ends with a result or an error, never with a crash or a hang, and allocates memory in proportion to the bytes given, whatever the lengths they announce.",
 ["inputs", "fault_sequences"], "every input length and content, every value of every length field with every amount of data following",
 "The tests decode only what they encoded.",
 B + ML + RP + IP + PE, [("all Decode / Unmarshal / Decompress functions", "bls/, mlsag/, rangeproof/")],
 "fault_enumeration", "exhaustive enumeration of hostile encodings with panic and allocation monitors on the real decoders", "Exhaustive over the lengths, byte values and length-field values in the evidence.")
exec(open(os.path.join(D, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(D, "tools", "props_more.py")) else None
P.sort(key=lambda p: p["id"])

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": ["exported API of the packages named"], "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "checks": [{"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": "model checking: " + p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the exported API. The commits in /repo are repairs of genuine defects (see known_findings.json and DESIGN.md)."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
