import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Honest proofs always verify, whatever the randomness, schedule or delivery",
"For every proof type (discrete log over any base, equivalence, disjunctive on either side, consistency, ABC on either side, inequality, range) and every true statement with its witness, the prover returns a proof, and every verifier accepts that proof for that statement. This holds both for the in-memory proof and after it was serialised, delivered (late, duplicated, reordered) and deserialised, for every sequence of values the entropy source can deliver (including 0, 1, order-1 and values with leading zero bytes) and for every scheduling of concurrent callers and of the library's own workers. Witness values may be given unreduced or negative; they count modulo the group order.",
["inputs","schedules","histories"],
"all true statements and witnesses x all entropy tapes x all interleavings of callers and internal workers x all delivery orders/duplications of the serialised proofs",
"The tests run one random witness per proof type on the OS scheduler with OS entropy; edge entropy values, short coordinates and adverse worker orders have probability 2^-8..2^-256 per run.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","crypto.go","wire/common.go"],
[("prover/verifier pairs use the same transcript hash and equations","New*Proof / Verify in each proof file"),("scalar reduction modulo the group order","crypto.go Mult, PedCommitR"),("identity-aware point arithmetic","crypto.go Add/Sub/Neg, btcec.go addJacobian")],
[("rand.Reader","entropy source, the only nondeterministic input of sequential provers","crypto/rand")],
["return values of New*Proof, Verify, Bytes, New*FromBytes"])

p("C02","No party can get a false statement accepted",
"No verifier accepts a proof that was built without a witness for the statement it is checked against: not a prover lying about its witness, not a transcript that satisfies all but one of the verification relations or uses a challenge other than the hash of the full transcript, not a transcript in which one public element was solved for after the challenge, and none in which a point of the statement or transcript lies outside the group. In particular an accepted ABC proof implies that the product commitment is consistent and is zero-or-one as stated, an accepted inequality proof implies the two committed values differ, and a commitment opens only to the value and blinding it was made from (never the negated point). Provers given a false witness return an error or a proof that is rejected.",
["inputs","fault_sequences","histories"],
"all byzantine provers of the modelled attack families (per proof type: one relation violated at a time, sign twists, challenge-first transcripts, solve-for-one-element transcripts, wrong branch, wrong witness) x statements x entropy",
"The tests contain one hand-written forged ABC proof and a few wrong-input cases; each verification relation needs its own adversary that satisfies all the others.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","crypto.go"],
[("recomputed Fiat-Shamir challenge compared with the proof's","Verify in each proof file"),("each linear relation checked","Verify in each proof file"),("point equality","crypto.go ECPoint.Equal")],None,
["Verify return values, Open, VerifyR"])

p("C03","A proof is bound to its exact statement",
"A proof made for one statement is rejected when it is replayed, misdelivered or presented for any other statement: a different commitment, token, public key, base or result, the negation or the identity in place of a point, or the same points in other positions. It is also rejected after being adapted to a related statement by shifting or scaling a point and adjusting the responses to match, since every public point of the statement and of the transcript enters the challenge.",
["inputs","histories","fault_sequences"],
"all histories of honest proofs x all misdeliveries to statements that differ in at least one public element x all linear adaptations of the transcript",
"Tests verify each proof against its own statement and at most one other; a missing element of the challenge hash is invisible to honest runs and to naive replays.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","crypto.go"],
[("challenge covers bases, results and commitments","GenerateChallenge calls in each proof file"),("verification relations use the caller's statement","Verify in each proof file")],None,
["Verify return values"])

p("C04","Proofs altered in transit or storage are never accepted",
"If the serialised form of a proof is altered between prover and verifier in any way (flipped bits, truncated or torn tail, zero-filled block, spliced messages, swapped, negated or shifted components), then what the verifier decodes is either rejected or still is a proof that satisfies every verification equation of the protocol exactly. No alteration that changes a commitment, challenge or response that the equations use is accepted; challenges and responses count modulo the group order.",
["fault_sequences","inputs"],
"all alterations of all serialised proofs, in flight and at rest, for every proof type",
"Tests only round-trip intact bytes.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go","crypto.go","wire/common.go"],
[("decode then full verification","New*FromBytes + Verify"),("length-prefixed fields","wire/common.go")],None,
["New*FromBytes and Verify return values"])

p("C05","Hostile bytes never crash, hang or exhaust a verifier",
"For every byte string, decoding it as any proof type (and reading it as a point, an integer or length-prefixed bytes) returns an error or a complete proof, and verifying a decoded proof returns a verdict: neither panics, loops, leaves workers behind or allocates memory out of proportion to the input's length and the declared maximum. A strict prefix of a serialised proof, or bytes in which a length promises more than follows, always decode to an error. A missing (nil) proof is rejected with an error.",
["inputs","fault_sequences"],
"all byte strings, in particular truncations and length-field corruptions of real proofs, fed to every decoder and on to every verifier",
"Tests never feed malformed bytes to a decoder.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go","crypto.go","wire/common.go"],
[("decode errors propagate","New*FromBytes"),("declared maximum enforced before allocation","wire/common.go ReadVarBytes"),("bounds on component counts","rangeproof.go")],None,
["return values, panics, allocation counters"])

p("C06","Stream encoding is exact under fragmented and failing I/O",
"Values (variable-length integers, byte strings, points, signed integers) written to any writer and read back from any reader are identical, however the stream fragments the data, and reading consumes exactly the bytes that were written for that value. If the underlying writer or reader fails (for good or only once) or ends at any byte, the call returns a non-nil error and never a wrong or partial value; non-minimal variable-length integers and byte strings longer than the caller's maximum are errors. Values written are decodable by an independent implementation of the documented format and the predicted encoded size is exact.",
["inputs","fault_sequences","histories"],
"all value sequences x all fragmentations (short reads, zero-byte reads, data together with EOF) x all error positions on both sides",
"wire has no tests at all; proof round-trips use in-memory buffers that never fragment or fail.",
["wire/common.go","crypto.go"],
[("io.ReadFull on every fixed-size field","wire/common.go binaryFreeList.Uint*"),("write errors returned","wire/common.go WriteVarInt/WriteVarBytes, crypto.go WriteECPoint/WriteBigInt"),("canonical-form check","wire/common.go ReadVarInt")],
[("binarySerializer","shared free list of scratch buffers","wire/common.go")],
["values and errors returned; bytes accepted by the writer"])

p("C07","A failing entropy source never yields a result",
"If the entropy source returns an error at any of the draws an operation makes (in the caller's thread or in any of the library's workers, under any schedule), the operation reports failure: proof generation, commitment, key generation, encryption and random-number calls return an error (key generation that has no error result panics in the calling thread) and never a proof, commitment, key, ciphertext or number. The process does not crash, no worker is left behind or blocks the caller, and once the source works again the same operation succeeds. Short reads without an error are not failures and do not change the guarantee that results are complete.",
["fault_sequences","schedules"],
"every draw index of every randomised operation x error kind (error, short-then-error, EOF) x schedule of the workers",
"Tests use the OS source, which never fails; the range prover's error returns are not looked at by any test.",
["crypto.go","gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","btcec/privkey.go","btcec/ciphering.go","wire/common.go"],
[("error checked after each draw","rand.Int call sites"),("worker errors collected before results are used","rangeproof.go NewRangeProof")],None,
["return values, panics, worker count"])

p("C08","Proofs reveal nothing beyond the statement: fresh full-size masking",
"Every proof, commitment, key and ciphertext uses fresh, full-size, independent random masks taken from the entropy source: no mask is reused or trivially related between or within results, across any history and any interleaving of concurrent callers. Every published response and challenge share is reduced into [0, order), so that no response, alone or divided by a published challenge, reveals a witness, mask or bit, and neither a witness nor a mask that must stay secret occurs in the published data. A disjunctive or ABC proof for the left side and one for the right side are published in the same form, size and range.",
["histories","schedules","inputs"],
"all histories of proofs over shared witnesses x entropy tapes x interleavings of concurrent provers",
"A leaking or reusing prover passes every completeness test; only an observer with the witness or a whole history sees it.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","rangeproof.go","crypto.go","btcec/ciphering.go"],
[("independent rand.Int draws","New*Proof"),("reduction of responses modulo the order","New*Proof"),("simulated branch of the disjunctive proof","disjunctive.go")],None,
["serialised proofs, commitments, ciphertexts"])

p("C09","Concurrent callers never interfere",
"Any number of threads may use the library at once on shared parameters, keys, statements, proofs and byte buffers: each call returns what it would return alone, no call modifies its arguments, the shared parameters or memory next to a slice it was given, and there is no data race. This includes streams whose reads and writes block half-way while other threads encode or decode, and the very first use of the curve from several threads.",
["schedules","histories"],
"all interleavings of concurrent calls on shared inputs, including blocking points inside reader/writer/entropy callbacks and lazy initialisation",
"Tests are single-threaded apart from the range prover's own workers.",
["wire/common.go","crypto.go","rangeproof.go","zksigma.go","btcec/btcec.go","btcec/precompute.go","btcec/ciphering.go","btcec/signature.go"],
[("free list hands each buffer to one borrower at a time","wire/common.go binaryFreeList"),("once-only curve initialisation","btcec/btcec.go S256"),("tables are read-only, points copied out","btcec/btcec.go ScalarBaseMult"),("results are fresh integers","crypto.go")],
[("binarySerializer","shared scratch buffers","wire/common.go"),("secp256k1","shared curve and tables","btcec/btcec.go"),("TestCurve, Zero, BigZero","shared parameters and constants","zksigma.go, crypto.go")],
["results of every call; snapshots of every argument; race reports"])

p("C10","Range-proof workers always finish and never affect the verdict",
"Creating or verifying a range proof returns within a bounded number of steps under every schedule of its workers, and when it has returned (with acceptance, rejection or error, for honest, damaged or hostile proofs of any shape and with a failing entropy source) all of its workers finish by themselves: none blocks forever, and none crashes the process. The verdict on a given proof and commitment is the same under every schedule and for every verifier.",
["schedules","fault_sequences"],
"all schedules of the per-bit workers x proof shapes (honest, corrupted, missing entries, 0..80 entries) x entropy faults",
"The OS scheduler shows a handful of orders; leaked goroutines and rare orders do not fail a test.",
["rangeproof.go"],
[("wait group and per-index slots in the prover","rangeproof.go NewRangeProof/proofGenA/proofGenB"),("result channel of the verifier","rangeproof.go Verify/verifyGen")],None,
["return of the call, live worker count, verdict"])

p("C11","Ledger sums converge and conserve in every order and across crashes",
"Nodes that combine the same set of commitments and tokens with the library's add, subtract and negate operations arrive at the same points in whatever order and grouping the transactions arrive, with duplicates removed, and after any crash and recovery from the serialised log (a torn last record is reported as an error, never read as a point). The sum opens exactly to the sum of the values and blindings (which count modulo the group order, negative ones included), balanced transactions sum to the identity, and the total can be audited with a proof; a wrong total never opens. Sums that pass through the identity, doublings and inverse pairs are no exception. Repeated entries may be combined with the scalar multiplications and doubling of the library and its curve, whose scalars count modulo the order.",
["histories","crash_points","fault_sequences","inputs"],
"all delivery orders, groupings, duplications, losses with retransmission, and crash points of all transaction histories",
"Tests add two or three fixed commitments in one order and never restart from serialised state.",
["crypto.go","wire/common.go","btcec/btcec.go","equivalence.go"],
[("group operations with identity handling","crypto.go Add/Sub/Neg/Mult"),("commitments reduce values modulo the order","crypto.go PedCommitR, CommitR"),("point codec","crypto.go WriteECPoint/ReadECPoint")],None,
["points held by each node, Open/VerifyR/audit verdicts"])

p("C12","Range proofs mean what they say",
"The range prover returns a proof exactly when 0 <= value < 2^40, and then the returned blinding opens the proof's commitment to the value and the proof verifies against it; for every other value it returns an error. A verifier never accepts a range proof for a commitment other than the one it was made for, nor for a value outside [0, 2^64): not with too many, missing or repeated bit entries, over-weighted bits, entries off the curve, bits left out of the hash, or a sum that differs from the commitment.",
["inputs","fault_sequences","schedules"],
"all values (bit patterns and boundaries) x entropy x worker schedules; all byzantine range transcripts of the modelled families",
"Tests draw one random 40-bit value and one random 256-bit value; the boundary 2^40, sparse patterns and hostile shapes are never drawn.",
["rangeproof.go","zksigma.go","crypto.go"],
[("range check before proving","rangeproof.go NewRangeProof"),("bit decomposition with per-bit ring","rangeproof.go proofGenA/proofGenB/verifyGen"),("sum of bit commitments compared with the commitment","rangeproof.go Verify")],None,
["NewRangeProof and Verify return values"])

p("C13","Encrypted messages arrive intact or not at all",
"A message encrypted to a public key decrypts with the matching private key to exactly the original bytes, for every length including zero, key, entropy sequence and any number of concurrent senders. A ciphertext that was altered, truncated, extended or spliced anywhere, or is opened with another key (one that is neither the right one nor its negation, which shares its x coordinate), gives an error and never a plaintext, and no byte string makes decryption panic, not even one with a valid checksum made by a sender with its own implementation. Whoever made it, a ciphertext with a wrong header, no whole blocks or an ephemeral point off the curve gives an error. Ciphertexts have the documented structure, so that an independent implementation can read and write them, and both sides of a key exchange derive the same secret.",
["inputs","fault_sequences","schedules"],
"all messages and keys x all alterations on the channel x interleavings of senders sharing buffers",
"btcec's tests cover only field arithmetic; encryption has none.",
["btcec/ciphering.go","btcec/pubkey.go","btcec/privkey.go"],
[("MAC over everything before it","btcec/ciphering.go Encrypt/Decrypt"),("point validated on parse","btcec/pubkey.go ParsePubKey"),("PKCS#7 padding","btcec/ciphering.go")],None,
["Encrypt/Decrypt return values"])

p("C14","Signatures and keys authenticate exactly what was signed",
"A signature made with a private key verifies with the matching public key for the same (non-empty) hash after any of the supported encodings of signature and key, and compact signatures recover exactly the signing key and its compression flag. Verification accepts exactly what ECDSA accepts: altered R or S values (other than S negated, which is the same signature), other hashes and other keys do not verify. Signing is deterministic for a key and hash (the RFC 6979 signature) whatever the entropy source and scheduling do, and the S value is always in the lower half of the order. The parsers accept only encodings of their format (the lax signature parser also padded numbers or ones without their sign byte) and return exactly what was encoded; two signatures or keys compare equal only if they are. No byte string makes a signature or key parser, or compact recovery, panic or return a key that is not on the curve.",
["inputs","fault_sequences","schedules"],
"all keys and hashes x all alterations of encoded signatures and keys x entropy states and interleavings of signers",
"btcec's tests cover only field arithmetic; signatures and parsers have none.",
["btcec/signature.go","btcec/pubkey.go","btcec/privkey.go","btcec/btcec.go"],
[("RFC 6979 nonce","btcec/signature.go"),("strict parsing and range checks","btcec/signature.go parseSig, btcec/pubkey.go ParsePubKey"),("key recovery","btcec/signature.go recoverKeyFromSignature")],None,
["Sign/Verify/Parse*/RecoverCompact return values"])

p("C15","Curve arithmetic equals the secp256k1 group law for every input",
"For every pair of curve points and every scalar, addition, doubling, scalar multiplication and the two fixed-base multiplications return the point that the secp256k1 group law defines, and field operations equal arithmetic modulo the field prime.",
["inputs"],"all points, scalars and field elements",
"Tests check about a hundred fixed field vectors and no point arithmetic vectors.",
["btcec/field.go","btcec/btcec.go","btcec/precompute.go","btcec/secp256k1.go","btcec/secp256k1H.go"],
[("Jacobian formulas, endomorphism split, byte-point tables","btcec/btcec.go"),("10x26 limb field","btcec/field.go")],None,["point coordinates returned"])

p("C16","The second generator's discrete logarithm is unknown",
"Nobody knows a scalar relating the two generator points used for commitments, so that a commitment cannot be opened to two different values.",
["configurations"],"the curve parameters in use",
"It is a statement about what nobody knows, not about an execution.",
["zksigma.go","crypto.go"],[("derivation of the second generator","zksigma.go init")],None,["published parameters"])

p("C17","Secret-dependent timing does not reveal witnesses",
"The running time and memory access pattern of provers, signers and key operations do not depend on secret scalars.",
["inputs"],"all secrets","Tests do not measure time.",
["btcec/btcec.go","btcec/field.go","crypto.go","rangeproof.go"],[("none: big.Int and table lookups are variable-time","btcec/btcec.go ScalarMult, ScalarBaseMult")],None,["wall-clock time of calls"])

p("C18","Verdicts and results depend only on the arguments, never on history",
"A call of any of the library's deterministic operations (verifying any proof, decoding, encoding, point and commitment arithmetic, opening, challenges, signing, signature verification and recovery, key parsing, key agreement, decryption) gives the same result for the same arguments whenever and wherever it is made: whatever calls came before it, with related arguments or with the same ones, in whatever order, by whichever caller, before or after a restart, and whatever the callers did afterwards with the arguments they passed and the values they were given, including overwriting them (a result may share storage with the arguments of the same call, but with nothing else). A prover's success depends only on its arguments and its entropy.",
["histories","schedules","inputs"],
"all histories of calls with repeated and related arguments (sharing coordinates, prefixes, signs, residues) by several callers who overwrite what they passed and got, on either side of a process restart",
"Every test makes its calls once, in one fixed order, in one process, and never overwrites a value it was given.",
["crypto.go","gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","zksigma.go","wire/common.go","btcec/btcec.go","btcec/signature.go","btcec/ciphering.go","btcec/pubkey.go"],
[("values returned are the caller's own","crypto.go Add/Sub/Neg/Mult/PedCommitR"),("package-level tables and parameters are written once","zksigma.go init, btcec/btcec.go initAll, btcec/precompute.go"),("scratch buffers are not shared between uses","wire/common.go binaryFreeList")],
[("TestCurve, fixed-base tables, scratch free list","package state that outlives a call","zksigma.go, btcec/secp256k1.go, wire/common.go")],
["return values of repeated calls"])

p("C19","A ledger built on the library admits exactly the valid rows, on every node",
"Banks can keep a ledger of hidden balances with the library's commitments, tokens, consistency, range and disjunctive proofs, encrypted notes and signatures, sent in its encodings. A payment that an honest bank builds from its own view is accepted by every node, unless another row came first. No node accepts a row that makes or skews money, overdraws or robs an account, carries a wrong token, a proof made for something else, a missing, altered or forged part, or another bank's signature. All nodes give every row the same verdict and hold the same sums, whatever is lost, repeated, delayed, damaged or partitioned and whenever they crash and recover from their log. Amounts are conserved and balances never negative. Audits against a node's sums (balance, number of payments, different amounts, ownership of the key) succeed for the truth and fail for anything else. Once faults stop, every bank's next payment goes through.",
["histories","schedules","crash_points","fault_sequences"],
"all histories of honest payments, attack rows, audits, losses, partitions, damage, entropy failures, crashes and recoveries among two or three banks, in all interleavings of their nodes",
"No test combines the proofs: each is tested alone, once, in memory, on honest input.",
["crypto.go","gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","zksigma.go","wire/common.go","btcec/btcec.go","btcec/signature.go","btcec/ciphering.go","btcec/pubkey.go"],
[("proof of consistency of commitment and token","consistency.go"),("proof of assets: disjunction and range","disjunctive.go, rangeproof.go"),("proof of balance: homomorphic sums","crypto.go Add/Sub"),("audits","equivalence.go, abc.go, inequality.go")],
[("column sums","what every node holds for every bank","built by the simulated nodes from crypto.go Add"),("log","accepted rows in the library's encodings","simulated disk")],
["verdict of every node for every row, sums, balances, audit verdicts"])

p("C20","All conforming implementations agree on every transcript, however rare its shape",
"In a cluster where some nodes run the library and others an independent implementation of the published protocols and encodings, all nodes reach the same verdict on every canonically encoded transcript, whoever made it. A valid proof of any type is accepted by the library whichever random choices its maker drew, including choices that lead to challenges, commitments or responses with leading or trailing zero bytes, the identity or equal elements; a node that relays it passes on the same bytes; the library's own prover, given entropy that leads to such a transcript, makes a proof every node accepts; and a transcript that is not valid is refused.",
["inputs","histories","schedules"],
"all true statements x all random choices of the prover, in particular those whose transcript has a shape of probability 2^-8 to 2^-16 x all makers and verifiers x interleavings of verifiers",
"Tests verify a handful of the library's own proofs; a shape of probability 2^-16 never occurs there, and nothing but the library itself ever makes or reads a proof.",
["gspfs.go","equivalence.go","disjunctive.go","consistency.go","abc.go","inequality.go","rangeproof.go","crypto.go","wire/common.go"],
[("verification relations over group elements","Verify in each proof file"),("challenge over the published elements","crypto.go GenerateChallenge"),("minimal big-endian encodings","crypto.go WriteECPoint, WriteBigInt")],None,
["verdicts of library and independent verifiers, relayed bytes"])

with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
