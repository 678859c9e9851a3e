#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, claimed=True, hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, claimed=claimed, hook=hook))

ED='src/group/edwards25519/'
prop('C01','Scalar arithmetic is exact arithmetic modulo the group order',
 "Every scalar operation (addition, multiplication, subtraction, negation, inversion, division, fused multiply-add, import of small signed integers, of byte strings of any length and of random values) yields the canonical representative of the mathematically exact result modulo the prime group order, whatever the operands (reduced or not, aliased or not) and whatever value the receiving object held before. Encoding a scalar always gives the 32-byte little-endian canonical form, decoding accepts exactly 32-byte inputs and never changes the receiver on failure, and the canonical-range test holds exactly for encodings below the group order.",
 ['inputs','histories'],'all 256-bit operands and receivers, all byte-string lengths, all finite sequences of operations on shared registers',
 'unit tests use a handful of small or random operands on fresh (zero) receivers; carry chains and reduction corners of the 21-bit limb code and dirty receivers are never reached',
 [ED+'scalar.rs',ED+'scalar_test_types.rs','src/group/integer_field/integer.rs'],
 [('limb arithmetic and reduction',ED+'scalar.rs: sc_mul_add, sc_add, sc_sub, sc_mul'),('import/export',ED+'scalar.rs: set_int, set_bytes, marshal_binary, is_canonical')],
 'return values of the scalar operations and their encodings','runtime reference-model monitor (big-integer shadow of every operation, overflow checks on)',
 'held on the executions generated; trusts num-bigint-dig as integer oracle')
prop('C02','Curve operations implement the Edwards25519 group law',
 "Point addition, subtraction, negation, the neutral element, the base point, base-point multiplication and multiplication of any point by any scalar below 2^255 give exactly the point that the twisted Edwards curve defines, including points with a torsion component, the identity, doubling through addition and aliased operands. The result never depends on the previous contents of the receiving object, on the internal representation in which the operands were computed, or on whether variable-time multiplication is enabled.",
 ['inputs','histories'],'all curve points (prime-order, torsion and mixed) in all projective representations, all scalars below 2^255, all sequences of operations',
 'tests sample random prime-order points and random scalars; digit-recoding carries, torsion, identity edge cases and representation changes are measure-zero there',
 [ED+'point.rs',ED+'ge.rs',ED+'ge_mult_vartime.rs',ED+'fe.rs',ED+'constants.rs'],
 [('scalar multiplication',ED+'ge.rs: ge_scalar_mult, ge_scalar_mult_base; ge_mult_vartime.rs'),('group law',ED+'ge.rs: CompletedGroupElement add/sub/double'),('field arithmetic',ED+'fe.rs')],
 'encodings of the points returned','runtime differential monitor against an independent curve implementation (shadow register file)',
 'held on the executions generated; trusts curve25519-dalek point addition and encoding')
prop('C03','Point encoding is a faithful, total and exact codec',
 "Encoding then decoding any group element returns that element, and two byte strings decode to equal points only if they denote the same curve point. Decoding accepts exactly the 32-byte strings whose y-coordinate (taken modulo the field prime) lies on the curve, and refuses every other input and every other length with an error; stream encoding and decoding agree with it, consume exactly 32 bytes and report truncated input.",
 ['inputs'],'all byte strings of all lengths, including non-canonical and off-curve encodings, and all group elements in all representations',
 'tests decode a few valid encodings; rejection, non-canonical y, sign handling and boundary field values need inputs no test samples',
 [ED+'point.rs',ED+'ge.rs',ED+'fe.rs','src/group/internal/marshalling/marshal.rs'],
 [('decode',ED+'ge.rs: ExtendedGroupElement::set_bytes'),('encode',ED+'ge.rs: write_bytes')],
 'result of decoding / encoding','runtime differential monitor against an independent codec','held on the executions generated; trusts curve25519-dalek decompression')
prop('C04','Point equality, ordering, hashing and validity predicates are exact',
 "Two points are equal, hash alike and order as equal exactly when they are the same group element, however each was computed, and ordering is a total order consistent with equality. The small-order test holds exactly for the eight points whose order divides eight, and the canonical-encoding test holds exactly for 32-byte strings whose y-coordinate field is below the field prime; neither ever aborts on any input.",
 ['inputs'],'all pairs of points in all representations, all byte strings',
 'tests look at a few listed weak keys and canonical boundaries; projective aliasing and near-prime encodings are not sampled',
 [ED+'point.rs',ED+'constants.rs'],
 [('equality/order/hash',ED+'point.rs: PartialEq, Ord, Hash'),('predicates',ED+'point.rs: has_small_order, is_canonical')],
 'results of ==, cmp, hash and the predicates','runtime reference-model monitor (encodings and torsion classification by an independent curve)','held on the executions generated')
prop('C05','Embedding data in a point is lossless and stays in the prime-order group',
 "Embedding any byte string in a point and extracting it returns exactly its first bytes up to the advertised capacity (29), the resulting point is a valid member of the prime-order subgroup, and it survives encoding. Picking a point without data yields a non-neutral member of the prime-order subgroup, determined only by the random stream; extraction fails with an error exactly when the length byte exceeds the capacity.",
 ['inputs'],'all payloads of all lengths including empty and over-long, all random streams, all points for extraction',
 'tests embed two strings; subgroup membership and truncation over all payload lengths and streams are not sampled',
 [ED+'point.rs'],[('embed/pick',ED+'point.rs: embed'),('extract',ED+'point.rs: data')],
 'returned point and extracted bytes','runtime monitor with an independent subgroup-membership oracle','held on the executions generated')
prop('C06','Generic modular integers implement arithmetic modulo any modulus',
 "For every modulus, addition, multiplication, subtraction, negation, inversion, division, exponentiation with any non-negative exponent, square roots modulo an odd prime and imports from signed integers, byte strings and (fractions of) text numbers give the mathematically exact result, normalised to the range from zero to the modulus minus one. Encodings are fixed-length for a given modulus in the selected byte order, decode back to the same value, and inputs of the wrong length or out of range are refused without altering the value held.",
 ['inputs','histories'],'all moduli of all byte lengths, all values including negative, zero and multiples of the modulus, both byte orders, arbitrary receivers',
 'tests use one 16-bit modulus and a few values that fill the modulus size',
 ['src/group/integer_field/integer.rs'],[('modular operations','src/group/integer_field/integer.rs: Scalar for Int, exp, sqrt, jacobi'),('codec','src/group/integer_field/integer.rs: little_endian, big_endian, marshal_binary')],
 'values and encodings returned','runtime reference-model monitor (big-integer shadow)','held on the executions generated; trusts num-bigint-dig primitives')
prop('C07','The extendable-output function is a pure function of what was absorbed',
 "The output stream of the extendable-output function is the BLAKE3 extendable output of the concatenation of everything absorbed, independent of how input and output are split into calls, and reading, key-stream XOR and random-byte filling consume one and the same stream. A clone continues identically and independently of its origin, absorbing after output has started is refused with an error that terminates writers, and reseeding makes the object absorb again, starting from a state keyed by its own next output.",
 ['histories','inputs'],'all interleavings of absorb, read, xor, clone and reseed with all chunk sizes',
 'tests check a few fixed call sequences',
 ['src/xof/blake3/xof.rs','src/xof/traits.rs','src/cipher/stream.rs'],[('state machine','src/xof/blake3/xof.rs: HashState, read, write, reseed, xor_key_stream')],
 'bytes and errors returned by each call','runtime history monitor against a sequential reference model (byte-exact, over BLAKE3)','held on the histories generated; trusts the blake3 crate')
prop('C08','Random source mixing and bounded random integers are sound',
 "The combined random stream succeeds as long as at least one of its entropy sources delivers, then its output depends on every source that delivered, and reports an error when none does or when buffer lengths differ; randomness helpers never turn a failed source into predictable output. Random bit strings have exactly the requested maximum (or exact) bit length and random integers lie below the bound, and every admissible value of small bounds is reachable with near-uniform frequency.",
 ['inputs','fault_sequences'],'all bit lengths and bounds, all sets of sources and all patterns of source failures, short reads and interrupted reads',
 'tests use a few lengths and a single all-fail case',
 ['src/util/random/random_stream.rs'],[('mixing','src/util/random/random_stream.rs: RandStream'),('bits/integers','src/util/random/random_stream.rs: bits, random_int, bytes')],
 'bytes, integers and errors returned, and bytes each source was asked for','runtime monitor with fault-injected sources and statistical frequency oracle','held on the executions generated; frequency tests use wide bounds fixed per seed')
prop('C09','Key pairs are well-formed Ed25519 keys',
 "Generating a key pair yields a public key equal to the base point times the private key, and with the Ed25519 generator the private key is the clamped hash of a 32-byte seed (multiple of eight, top bit set at position 254) so that it equals the key any RFC 8032 implementation derives from that seed. Keys come only from the supplied random stream, different draws give different keys, and a failing stream is reported instead of producing a key.",
 ['inputs','fault_sequences'],'all seeds and streams, including failing ones',
 'tests generate a couple of keys',
 ['src/util/key/key_pair.rs',ED+'curve.rs','src/sign/eddsa/eddsa_sig.rs'],[('generation','src/util/key/key_pair.rs: gen'),('clamping',ED+'curve.rs: new_key_and_seed_with_input')],
 'keys returned and bytes drawn from the stream','runtime differential monitor against an independent RFC 8032 implementation, with fault-injected randomness','held on the executions generated; trusts ed25519-dalek')
prop('C10','EdDSA signing conforms to RFC 8032 and round-trips',
 "For every seed and message, the public key, the signature bytes and the key encoding are exactly those RFC 8032 defines, signing is deterministic and does not change the key, and the signature verifies under that key. Exporting a key and importing it again gives a key that produces the same signatures. No key, however it was made, signs with a nonce that can be computed without knowing a secret.",
 ['inputs'],'all seeds, all message lengths including empty and multi-block',
 'tests run a finite vector file; they do not reach round trips, receivers holding another key, or long messages',
 ['src/sign/eddsa/eddsa_sig.rs'],[('sign','src/sign/eddsa/eddsa_sig.rs: sign'),('export/import','src/sign/eddsa/eddsa_sig.rs: marshal_binary, unmarshal_binary')],
 'signature and key bytes','runtime differential monitor against an independent RFC 8032 implementation','held on the executions generated; trusts ed25519-dalek')
prop('C11','Signature verification accepts exactly the valid signatures',
 "EdDSA and Schnorr verification accept a signature if and only if it has the exact length, its response is below the group order, commitment and public key are canonically encoded curve points not of small order, and the verification equation holds for exactly the given message and key. In particular no modification of message, key or signature, no malleated response (s plus the group order), no re-encoded point and no torsion-shifted point turns a rejected triple into an accepted one or the reverse, and verification never aborts.",
 ['inputs'],'all triples of key, message and signature bytes of all lengths, in particular adversarial ones built from valid signatures',
 'tests try a few tampered signatures and listed weak keys',
 ['src/sign/eddsa/eddsa_sig.rs','src/sign/schnorr/schnorr_sig.rs',ED+'point.rs',ED+'scalar.rs'],
 [('EdDSA verify','src/sign/eddsa/eddsa_sig.rs: verify_with_checks'),('Schnorr verify','src/sign/schnorr/schnorr_sig.rs: verify_with_checks')],
 'accept/reject of each triple','runtime decision monitor: accept/reject recomputed by an independent verifier on adversarial triples','held on the executions generated; trusts curve25519-dalek and sha2')
prop('C12','Schnorr signatures are complete and never reuse a nonce',
 "Signing any message with any private key gives a 64-byte signature that verifies under the matching public key as a Schnorr and as an EdDSA signature. Each signature uses a fresh nonce drawn from the suite's random stream, so that two signatures never share their commitment, whatever keys and messages are signed.",
 ['inputs','histories'],'all keys, messages and sequences of signing operations',
 'tests sign a few messages and never compare nonces across operations',
 ['src/sign/schnorr/schnorr_sig.rs'],[('sign','src/sign/schnorr/schnorr_sig.rs: sign')],
 'signatures and the draws on the random stream','runtime trace monitor over the logged random stream plus independent verification','held on the executions generated')
prop('C13','Public-key encryption round-trips and rejects every alteration',
 "Decrypting what was encrypted to a key returns the exact plaintext, for every plaintext length, and the ciphertext is exactly one encoded point, the plaintext length and a 16-byte tag long. Any alteration, truncation or extension of a ciphertext, or any other private key, makes decryption return an error and never a plaintext or an abort; encrypting twice never reuses an ephemeral key.",
 ['inputs','histories'],'all plaintexts, keys, single- and multi-byte alterations, truncations and extensions, and arbitrary byte strings as ciphertext',
 'tests flip one byte of one ciphertext',
 ['src/encrypt/ecies/ecies_impl.rs','src/dh/dh_impl.rs'],[('encrypt/decrypt','src/encrypt/ecies/ecies_impl.rs')],
 'ciphertext, plaintext or error','runtime round-trip and tamper monitor with an independently computed decryption','held on the executions generated; trusts hkdf, sha2, aes-gcm, curve25519-dalek')
prop('C14','Key agreement and authenticated encryption are sound and compatible',
 "Both ends of a Diffie-Hellman exchange compute the same point, key derivation is HKDF over the suite hash for every output length (an error beyond the limit), and sealing is AES-256-GCM under the derived key. Opening returns the sealed plaintext exactly when ciphertext, nonce, associated data, key-derivation context and key all match, and otherwise errors without releasing plaintext; output buffers receive the result without aborting.",
 ['inputs'],'all keys, contexts, nonces, associated data, plaintext and output lengths, and all single-field mismatches',
 'tests cover one vector and one round trip',
 ['src/dh/dh_impl.rs'],[('HKDF/AES-GCM','src/dh/dh_impl.rs: Dh'),('AEAD','src/dh/dh_impl.rs: AEAD')],
 'keys, ciphertexts, plaintexts and errors','runtime differential monitor against independent HKDF/AES-GCM plus mismatch matrix','held on the executions generated; trusts hkdf and aes-gcm crates')
prop('C15','Any t shares reconstruct the secret; fewer never do',
 "From any selection of at least t distinct valid shares of a sharing, in any order, with missing entries and with gaps in the indices, reconstruction returns the shared secret and the whole private polynomial, and likewise the public commitment and the whole public polynomial from public shares. With fewer than t distinct shares reconstruction reports an error and never a wrong value, and it never depends on which t shares or in what order they were supplied.",
 ['inputs','configurations'],'all thresholds and sizes, all subsets, orders, duplicates and gaps of shares',
 'tests use one n and t and mostly the first shares in order',
 ['src/share/poly.rs'],[('Lagrange recovery','src/share/poly.rs: recover_secret, recover_pri_poly, recover_commit, recover_pub_poly'),('share selection','src/share/poly.rs: xy_scalar, xy_commit')],
 'reconstructed values and errors','runtime reference-model monitor (big-integer polynomials) over enumerated share selections','held on the executions generated')
prop('C16','Secret-sharing polynomials and commitments are homomorphic and binding',
 "Shares are the exact evaluations of the private polynomial at index plus one, the public polynomial evaluates to the private evaluation times the commitment base, and adding or multiplying polynomials corresponds to adding or multiplying their evaluations. A public polynomial accepts a private share exactly when the share is the evaluation at its index; equality of polynomials holds exactly when threshold and all coefficients agree, and operations on mismatched polynomials report an error instead of aborting.",
 ['inputs','configurations'],'all polynomials, thresholds, indices and bases, including mismatched lengths and altered shares',
 'tests use a few random polynomials of equal length',
 ['src/share/poly.rs'],[('evaluation','src/share/poly.rs: PriPoly::eval, PubPoly::eval'),('check/equal/add/mul','src/share/poly.rs')],
 'evaluations, comparison and check results','runtime reference-model monitor (big-integer polynomials, independent curve)','held on the executions generated')
prop('C17','Verifiable sharing: a verifier approves exactly the consistent deals',
 "In both verifiable secret sharing schemes a verifier answers a dealer's encrypted deal with a signed approval if its share lies on the committed polynomial of the announced threshold for that verifier and session, answers a deal that is addressed to it but inconsistent with a signed complaint (or refuses it), and never approves it. When a deal is certified, every selection of at least threshold many verifiers' certified deals reconstructs one and the same secret, the one committed to; a deal not meant for this verifier, not from this dealer, repeated, or altered in transit in any field is refused with an error and leaves the verifier unaffected.",
 ['inputs','configurations','fault_sequences'],'all sizes and thresholds, all dealer misbehaviours on any subset of deal fields and verifiers, all in-transit alterations',
 'tests run n=7 with one honest dealer and a few hand-altered fields',
 ['src/share/vss/pedersen/vss.rs','src/share/vss/rabin/vss.rs'],[('deal verification','vss.rs: process_encrypted_deal, decrypt_deal, verify_deal'),('recovery','vss.rs: recover_secret')],
 'responses, errors and reconstructed secrets','runtime protocol monitor with Byzantine dealer and network fault injection, independent share-consistency oracle','held on the executions generated')
prop('C18','Deal certification follows the documented response rules in every history',
 "For every history of deals, responses, complaints, justifications and timeouts, in both verifiable secret sharing schemes, a deal is reported certified exactly when the dealer has not been caught, at least t approvals are recorded and the remaining conditions of the scheme hold: in the Pedersen scheme no complaint is left unjustified, nobody is missing before the timeout and at most n-t are missing after it; in the Rabin scheme every verifier has answered or, after the timeout, counts as a complainer. A complaint answered by a valid justification counts as approval, an invalid justification condemns the dealer for good, and responses that are unsigned, wrongly signed, out of range, duplicate, late, or for another session never change the outcome.",
 ['histories','schedules','fault_sequences'],'all orders and multiplicities of genuine and forged responses, justifications and timeouts',
 'tests follow a handful of scripted sequences',
 ['src/share/vss/pedersen/vss.rs','src/share/vss/rabin/vss.rs'],[('certification','vss.rs: deal_certified, add_response, verify_response'),('justification','vss.rs: verify_justification')],
 'certification status, recorded responses and errors after every event','runtime history monitor: executable reference state machine compared after every event of randomized hostile histories','held on the histories generated')
prop('C19','Deals reach only their addressee and protocol messages are bound to sender',
 "An encrypted deal can be opened only by the verifier it is addressed to and only if it was issued by the announced dealer for the same verifier set; nobody else's key, and no altered ephemeral key, signature, nonce or ciphertext yields a deal. Encrypting deals, even to the same verifier, never reuses an ephemeral key, and responses and justifications carry signatures that verify under the issuer's long-term key over their full content.",
 ['inputs','configurations','histories'],'all pairs of participants, all alterations of all message fields, repeated encryptions',
 'tests decrypt with the right key only',
 ['src/share/vss/pedersen/vss.rs','src/share/vss/rabin/vss.rs','src/dh/dh_impl.rs'],[('deal encryption','vss.rs: encrypted_deal, decrypt_deal, context'),('message hashes','vss.rs: Response::hash, Justification::hash')],
 'decryption results, signatures, random draws','runtime monitor: full cross-delivery matrix, field tampering, logged randomness','held on the executions generated')
prop('C20','Distributed key generation: all honest participants agree on one key',
 "In the non-interactive distributed key generation, whenever honest participants report completion and obtain their share, all hold the same commitments, the same public key and the same set of qualified dealers, their shares verify against those commitments, and any threshold of them reconstructs the private key matching the public key. This holds for every order of message delivery, loss followed by timeout, duplication, replay, and misbehaving or crashed minority; with no faults every participant completes, and a dealer whose deal is not certified contributes nothing.",
 ['schedules','configurations','fault_sequences','histories'],'all sizes and thresholds, all delivery orders, drops, duplicates and Byzantine dealers or responders in a minority',
 'tests deliver all messages in one fixed order with at most one scripted fault',
 ['src/share/dkg/pedersen/dkg.rs','src/share/vss/pedersen/vss.rs'],[('phases','dkg.rs: deals, process_deal, process_response, process_justification'),('certification and output','dkg.rs: certified, qual, dist_key_share')],
 'outputs of every participant per run','runtime protocol simulation monitor: randomized schedules and faults, agreement and consistency oracle over all outputs','held on the schedules generated')
prop('C21','Resharing and refreshing keep the key while changing the shares',
 "Resharing a distributed key to a same, larger, smaller, overlapping or disjoint group, with the same or another threshold, preserves the public key: every new member's share verifies against the new commitments, any new-threshold subset of new shares reconstructs the same private key, and no set mixing old and new shares below threshold does. Adding a sharing of zero to existing shares refreshes every share without changing the public key and refuses a refresh that is not a sharing of zero; a dealer that does not share its actual old share is not accepted.",
 ['configurations','schedules','fault_sequences'],'all old and new group shapes and thresholds, delivery orders, absent or cheating old members up to the tolerated number',
 'tests run a few fixed group shapes with ordered delivery',
 ['src/share/dkg/pedersen/dkg.rs','src/share/dkg/pedersen/structs.rs'],[('resharing','dkg.rs: resharing_key, process_resharing_response, process_resharing_deal'),('renewal','structs.rs: renew')],
 'old and new public keys, shares and errors','runtime protocol simulation monitor: randomized groups, schedules and cheating dealers with a secret-preservation oracle','held on the schedules generated')
prop('C22','Interactive distributed key generation agrees and survives exposed dealers',
 "In the interactive (two-phase) distributed key generation, honest participants that finish hold the same public key and commitments, their shares verify against them, and any threshold reconstructs the matching private key, for every delivery order and for misbehaving dealers caught in either phase. A qualified dealer that publishes wrong commitments in the second phase is reconstructed by the others from its shares, so its contribution stays in the key; complaints that are false, forged or for another session change nothing.",
 ['schedules','configurations','fault_sequences','histories'],'all sizes and thresholds, delivery orders, Byzantine dealers in either phase, false complaints',
 'tests script one complaint with fixed order',
 ['src/share/dkg/rabin/dkg.rs','src/share/vss/rabin/vss.rs'],[('first phase','dkg.rs: process_deal, process_response, process_justification'),('second phase','dkg.rs: secret_commits, process_secret_commits, process_complaint_commits, process_reconstruct_commits')],
 'outputs of every participant per run','runtime protocol simulation monitor: randomized schedules and two-phase Byzantine faults, agreement oracle','held on the schedules generated')
prop('C23','Threshold signatures: any threshold of honest signers yields a valid signature',
 "Once any threshold many distinct valid partial signatures on the same message and session have been collected, in any order, every participant can output a signature, all participants output the same one, and it verifies as an ordinary EdDSA/Schnorr signature under the distributed public key. Partial signatures that are altered, wrongly signed, duplicated, out of range, or from another session or signer are refused and never counted, and below the threshold no signature is produced.",
 ['schedules','configurations','fault_sequences'],'all sizes, thresholds, subsets and orders of partial signatures and all alterations',
 'tests combine all partials in index order',
 ['src/sign/dss/dss_sig.rs'],[('partials','dss_sig.rs: partial_sig, process_partial_sig'),('combination','dss_sig.rs: enough_partial_sig, signature')],
 'errors, partials accepted and the final signature','runtime protocol monitor over subset/order/tamper histories with independent signature verification','held on the executions generated')
prop('C24','Hostile input is refused, never a crash or a hang',
 "No byte string, decoded message or message field supplied by another party (points, scalars, signatures, ciphertexts, encrypted deals, responses, justifications, commitments, partial signatures) makes any decoding, verification, decryption or protocol-processing operation abort, overflow or fail to return: it either succeeds or reports an error. After a refused input the same object still completes the honest protocol.",
 ['inputs','fault_sequences'],'all byte strings and all structurally mutated protocol messages at every protocol stage',
 'tests feed well-formed inputs with single-field changes',
 ['src/share/vss/pedersen/vss.rs','src/share/vss/rabin/vss.rs','src/share/dkg/pedersen/dkg.rs','src/share/dkg/rabin/dkg.rs','src/encrypt/ecies/ecies_impl.rs','src/sign','src/group/edwards25519'],
 [('entry points','process_* / verify / decrypt / unmarshal functions')],
 'panic, crash or CPU-budget monitor around every call, then completion of the honest run','runtime crash/overflow/hang monitor under structure-aware mutation (overflow checks, debug assertions on)','held on the inputs generated')
prop('C25','Protocol state can be saved and restored at any point',
 "Serialising any protocol participant, key, share, polynomial or message and deserialising it gives an object equal to the original that behaves identically from then on. A participant that is saved and restored between any two steps of a verifiable sharing, key generation, resharing or threshold signing run therefore ends with the same outputs as one that was never interrupted.",
 ['crash_points','histories'],'all save points in all protocol runs, all serialisable types and values',
 'tests serialise single messages once, never mid-protocol participants',
 ['src/share/dkg/pedersen/dkg.rs','src/share/dkg/rabin/dkg.rs','src/share/vss','src/sign/dss/dss_sig.rs','src/encoding/encodings.rs'],
 [('state','Serialize/Deserialize of DistKeyGenerator, Dealer, Verifier, DSS, DistKeyShare')],
 'outputs of interrupted and uninterrupted runs','runtime crash-point monitor: save/restore injected between steps, lockstep comparison with the uninterrupted run','held on the save points generated')
prop('C26','Operations are pure: no interference across threads or calls',
 "Operations leave their arguments unchanged, and the same operation on the same inputs gives the same result whatever ran before and however many threads use the library and shared keys, points and suites at the same time. Concurrent use is free of data races and of undefined behaviour.",
 ['schedules','histories'],'all interleavings of threads using shared immutable values and the global constants; all orders of calls',
 'tests run each operation single-threaded in isolation',
 ['src/group/edwards25519','src/group/integer_field/integer.rs','src/sign','src/share/poly.rs'],
 [('shared state','lazily initialised global constants in constants.rs / integer.rs'),('no interior mutability','public value types')],
 'results per thread versus a sequential run; sanitizer reports','multi-thread determinism monitor, ThreadSanitizer / AddressSanitizer / Miri runs of the same workload','held on the interleavings seen; std is not instrumented')
prop('C27','Every secret nonce and key comes fresh from the suite randomness',
 "Every operation that needs secret randomness (nonces, ephemeral keys, polynomial coefficients, per-session secrets) draws enough fresh bytes for it on each call from the suite's random stream (for ECIES and the Pedersen DKG secret: from the configured entropy source or the operating system), so that its secret output changes whenever the stream changes and, where the suite's stream is the only source, is reproduced when the stream is replayed. No two operations in a run reuse a nonce, an ephemeral key or a polynomial, and a failing random stream never leads to predictable secrets.",
 ['histories','fault_sequences'],'all sequences of randomised operations and all randomness failure points',
 'tests never observe the random stream',
 ['src/sign/schnorr/schnorr_sig.rs','src/share/vss','src/share/poly.rs','src/share/dkg','src/encrypt/ecies/ecies_impl.rs','src/util/random/random_stream.rs'],
 [('draws','suite.random_stream() call sites')],
 'draw log of the instrumented random stream against the public outputs','runtime trace monitor over an instrumented random stream (replay and divergence)','held on the histories generated')
prop('C28','Printing objects for logs never reveals secrets',
 "The debug and display representations of participants, dealers, verifiers, deals, key pairs, signers and distributed shares never contain the private keys, secret shares, secret polynomial coefficients or seeds they hold, in any protocol state and in any of the usual renderings (hexadecimal of either byte order, decimal, byte lists).",
 ['histories','inputs'],'all reachable protocol states and all secret values',
 'no test inspects formatted output',
 ['src/share/vss','src/share/dkg','src/share/poly.rs','src/sign/eddsa/eddsa_sig.rs','src/sign/dss/dss_sig.rs','src/util/key/key_pair.rs'],
 [('formatting','Debug and Display implementations')],
 'formatted strings','runtime taint monitor: every rendering of every known secret searched in all formatted output','held on the states generated')

prop('C29','Digests, sizes, streamed encodings and text forms identify their object',
 "The digest of a share, response, complaint, commitment, reconstruction or partial-signature message depends on every field it covers, so that no two different messages of a kind share a digest, while equal messages always do. Sizes announced by an object and by its group are the sizes actually written; objects written one after the other to a stream are read back one after the other whatever the stream's fragmentation, each taking exactly its own bytes, and a stream that ends or fails inside an object is reported and leaves the object unchanged. Hexadecimal and display forms denote exactly the encoded value, and type tags tell kinds of objects apart.",
 ['inputs','fault_sequences'],'all values, all single-field variations of all messages, all fragmentations and failure points of readers and writers',
 'tests hash and print a handful of values and use in-memory streams that never fragment or fail',
 ['src/share/poly.rs','src/share/dkg/rabin/dkg.rs','src/share/vss','src/sign/dss/dss_sig.rs','src/encoding/encodings.rs','src/group/internal/marshalling/marshal.rs','src/group/edwards25519','src/group/integer_field/integer.rs'],
 [('digests','hash() of PriShare, PubShare, Response, SecretCommits, ComplaintCommits, ReconstructCommits, PartialSig'),('streams','marshal.rs: point_/scalar_ marshal_to, unmarshal_from'),('text','LowerHex, UpperHex, Display of Point, Scalar, Int')],
 'digests, bytes written and consumed, errors, formatted strings','runtime monitor: cross-message digest table, fault-injecting readers and writers, independent encodings','held on the executions generated; share indices below 2^32')

def write():
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for p in P:
            f.write(json.dumps({
              'id':p['id'],'title':p['title'],'statement':p['statement'],
              'quantifier':{'over':p['over'],'text':p['text']},
              'why_tests_cant':p['why'],
              'anchors':{'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']],
                         'observe_at':[p['observe']],'hook_needed':None}})+'\n')
    src=open(os.path.join(V,'harness/src/main.rs')).read()
    checks=[];na=[]
    for p in P:
        if '("%s",'%p['id'] in src and p['claimed']:
            checks.append({'property':p['id'],'quick_cmd':'bash run.sh check %s quick'%p['id'],
              'thorough_cmd':'bash run.sh check %s thorough'%p['id'],
              'technique':p['technique'],'level':'exploration','level_note':p['note']})
        else:
            na.append({'property':p['id'],'reason':'check not built yet'})
    m={'version':1,'setup_cmd':'bash run.sh build',
       'checks':checks,'not_applicable':na,
       'notes':'All checks are one Rust binary (harness/) built against /repo; no hooks were needed in /repo.'}
    with open(os.path.join(V,'MANIFEST.json'),'w') as f: json.dump(m,f,indent=1); f.write('\n')
write()
