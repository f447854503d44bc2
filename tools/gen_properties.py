import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

RP="rangeproof/rangeproof.go"; IP="rangeproof/innerproduct/innerproduct.go"; PD="rangeproof/pedersen/pedersen.go"
BLS="bls/bls.go"; ML="mlsag/mlsag.go"; DK="mlsag/dualkey.go"; PR="mlsag/proof.go"; BS="ringsig/blsag/blsag.go"; MT="merkletree/merkletree.go"; HS="hash/hash.go"

p("C01","Every honest range proof verifies on every node, history and schedule",
 "Given between 1 and 16 values that each lie in [0, 2^64), proving succeeds, and every verifier accepts the resulting proof: the same process, another node, a freshly restarted process, before or after an encode/transmit/decode round trip, and whatever proofs of other sizes were produced or checked before or at the same time. An empty list or more than 16 values is refused with an error and leaves the prover able to serve the next request.",
 ["inputs","histories","schedules","crash_points"],
 "all value lists of length 0..20 including boundary values, prover self-check mode on or off, all sequences and interleavings of prove, verify, encode, decode and restart on several nodes",
 "The tests prove and verify one list at a time, back to back in the same process and in the same order, so the verifier always inherits whatever the prover left behind; no test verifies a proof of one size after or while another size is handled, nor on a fresh process.",
 [RP,"rangeproof/poly.go","rangeproof/bitCommitment.go","rangeproof/debug.go",IP,"rangeproof/vector/vector.go","rangeproof/generators/generator.go"],
 [("bulletproof prover","rangeproof.Prove"),("single-equation verifier","rangeproof.Verify / megacheckWithC"),("padding to a power of two","rangeproof.Prove, innerproduct.DiffNextPow2"),("inner-product argument","innerproduct.Generate / VerifScalars")],
 ["rangeproof.Prove result","rangeproof.Verify verdict","Proof.Encode/Decode"],
 [("number of aggregated values","size parameter shared between prover and verifier","rangeproof package")])

p("C02","No altered, spliced or out-of-range range proof is ever accepted",
 "A verifier accepts a range proof only if it is a valid proof for exactly the commitments it carries: if any commitment, point, scalar or inner-product element was altered, added, dropped, duplicated, reordered or taken from another proof, or the prover committed to a value outside [0, 2^64), verification reports failure and does not crash. The verdict depends only on the proof: it is the same on every node, after every history, under every interleaving and for every choice of verifier randomness.",
 ["inputs","fault_sequences","histories","schedules"],
 "all proofs reachable from honest ones (and from cheating provers) by sequences of network corruptions and splices, in memory or through the wire format, at any verifier",
 "The tests only verify honest proofs (and one out-of-range value); nothing checks that corrupted or recombined proofs are refused.",
 [RP,"rangeproof/poly.go",IP,PD,"rangeproof/fiatshamir/fiatshamir.go","rangeproof/vector/vector.go"],
 [("Fiat-Shamir transcript binding all proof elements","rangeproof.Verify"),("combined equation with random weight","rangeproof.megacheckWithC"),("point decoding checks","rangeproof.readerToPoint, innerproduct.Proof.Decode")],
 ["rangeproof.Verify verdict vs an independent reference verifier"])

p("C03","Concurrent use of the library behaves like running each call alone",
 "Any number of goroutines may prove, sign, aggregate, verify, encode, decode, commit, hash and check Merkle trees at the same time, including when they share keys, signatures, proofs and trees that none of them modifies. Under every interleaving each call terminates without crashing and returns exactly what it returns when executed alone with the same arguments and the same randomness.",
 ["schedules","histories"],
 "all interleavings, at the granularity of single statements, of concurrent calls into every package, on private or shared read-only objects",
 "Every test runs its calls one after another in a single goroutine.",
 [RP,BLS,ML,PR,BS,MT,PD,HS,"rangeproof/generators/generator.go"],
 [("absence of shared mutable package state","all packages"),("normal-form points in shared BLS objects","bls.GenKeyPair, bls.Sign, bls.Aggregate..."),("fresh buffers for every computation","merkletree, mlsag, pedersen")],
 ["return values of all exported calls","encodings of shared objects"],
 [("package-level variables","must not influence results across goroutines","rangeproof, bls, ...")])

p("C04","BLS aggregation is order- and route-independent and verifies exactly",
 "However contributions reach a node - in any order and grouping, one by one or as partial aggregates, compressed or uncompressed, duplicated, or resumed from a serialized aggregate after a restart - nodes that aggregated the same multiset of keys or signatures hold byte-identical aggregates. An aggregate signature over a message verifies against an aggregate key if and only if both contain the same signers with the same multiplicities, and a batch of aggregates over pairwise distinct messages verifies if and only if each message's key set and signature set match.",
 ["histories","fault_sequences","schedules","crash_points"],
 "all delivery orders, groupings, duplications, losses, encodings and restarts for any set of signers, messages and aggregating nodes",
 "The tests aggregate two or three fixed contributions in one order in one process.",
 [BLS],
 [("key-weighted aggregation","bls.AggregateApk, Apk.Aggregate, Signature.Add/Aggregate"),("pairing checks","bls.verify / verifyBatch"),("compressed and uncompressed codecs","Signature.Compress/Decompress/Marshal/Unmarshal")],
 ["Marshal of aggregates","Verify/VerifyBatch/VerifyUnsafe/VerifyUnsafeBatch/VerifyCompressed verdicts"])

p("C05","BLS verification rejects everything the named signers did not sign",
 "Verification fails for every signature not produced by exactly the named signers on exactly the named message: other message, other key, missing or extra contributor, wrong sign, identity element, unweighted instead of key-weighted contributions, rogue keys built from honest ones, swapped or repeated messages in a batch, or a batch whose numbers of keys and messages differ. It reports an error instead of crashing, whatever order and history the attacker uses.",
 ["inputs","histories","fault_sequences"],
 "all sequences of adversarial derivations (negate, add, scale, swap, splice, re-encode, rogue-key registration) over honestly produced keys and signatures",
 "The tests check a handful of fixed negative cases; no test lets an adversary combine observed material over several steps.",
 [BLS],
 [("pairing equation","bls.verify / verifyBatch"),("key-prefixed weighting against rogue keys","bls.h1/pkt/apkSigWrap"),("distinct-message rule","bls.distinct")],
 ["verdict of all verification entry points"])

p("C06","Failed or partial BLS operations leave objects intact; copies are independent",
 "A BLS key, aggregate key or signature changes only through a successful operation on that very object: when decoding, decompressing or aggregating bytes fails, the receiver keeps its previous value, and no operation changes any of its other arguments or any other object. Copies and derived objects never share state with their source, so later mutation of one is never visible through the other.",
 ["histories","fault_sequences"],
 "all sequences of operations with intact, truncated and corrupted byte inputs over a pool of related objects",
 "Tests exercise each operation once on fresh objects and never look at an object after a failed call.",
 [BLS],
 [("decode into a temporary before replacing","Signature.Unmarshal/Decompress, PublicKey.Unmarshal/UnmarshalText"),("deep copies","Apk.Copy, Signature.Copy, UnsafeBatch, NewApk")],
 ["Marshal of every live object after every step"])

p("C07","Multilayer ring signatures verify exactly when the signature is genuine",
 "For every ring of decoys, every signer and message, signing succeeds and the signature contains exactly the decoys plus the signer, verifies with its key image on every node, also after an encode/decode round trip, and keeps verifying whatever happens later to the signing session. If the message, challenge, any response, any ring key, their number or order, or the key image is altered in transit, verification reports failure without crashing, and rings whose members have differing numbers of keys are refused.",
 ["inputs","histories","fault_sequences","schedules"],
 "all ring sizes including no decoys, all signing-session histories, all sequences of corruptions and splices of signatures and key images",
 "Tests sign with one fixed ring size and one tampering pattern each; ring position and tampering point are not explored.",
 [ML,DK,PR,"mlsag/pubkeys.go","mlsag/responses.go"],
 [("challenge ring","mlsag prove/Verify/generateChallenge"),("shape checks","mlsag prove, Signature.Verify"),("dual-key session","DualKey")],
 ["DualKey.Prove result","Signature.Verify verdict vs reference verifier","Signature.Encode bytes"])

p("C08","Single-key ring signatures verify exactly when the signature is genuine",
 "For every set of decoys (also none), signer and message, the produced ring contains exactly the given decoys plus the signer's key, and verifies on every node. If the message, key image, challenge, any response or any ring key is altered, dropped, added or reordered, verification answers false and does not crash.",
 ["inputs","histories","fault_sequences"],
 "all ring sizes, signer positions and tampering sequences",
 "One test with a fixed ring checks only that the produced signature verifies.",
 [BS],
 [("challenge chain over the ring","blsag.Sign / Verify / computeCLR")],
 ["blsag.Sign result","blsag.Verify verdict vs reference verifier"])

p("C09","Ring signatures by one key are always linkable; by different keys never",
 "The key image is determined by the signing key alone: over all sessions, rings, messages, nodes, restarts, clocks and schedules, signatures made with one key carry the same image and signatures made with different keys carry different images. No signature is accepted together with any image other than the one determined by its signing key, in particular not with an identity, undecodable or uninitialised image.",
 ["histories","fault_sequences","schedules"],
 "all multi-session histories of many signers with shared rings, and all substitutions of the image by an adversary who owns a signing key",
 "Tests never compare images across two signing sessions and never try a malformed image.",
 [ML,DK,BS],
 [("image = key * hash-to-point(public key)","mlsag.CalculateKeyImage, blsag.Sign"),("image bound in every challenge","generateChallenge, computeCLR"),("rejection of degenerate points","mlsag Signature.Verify, blsag.Verify")],
 ["key images returned by signing","verification verdicts"])

p("C10","A ring signature does not reveal who signed",
 "In both ring-signature schemes the signer's place in the ring cannot be predicted: over many signatures every place occurs equally often, whatever the clock reads, however often the process restarts, however the decoys are ordered and however signing calls interleave. Nothing else in the signature singles out the signer: no zero, repeated or constant responses, and ring members are carried unmodified.",
 ["schedules","configurations","histories"],
 "all clock values and clock schedules (frozen, stepping, jumping), restarts, decoy orders, ring sizes",
 "Tests sign once and never look at where the signer ended up.",
 [PR,ML,BS],
 [("shuffling of the ring","mlsag Proof.shuffleSet"),("random signer index","blsag.Sign"),("random responses for decoys","generateResponses, blsag.Sign")],
 ["position of the signer key in the published ring","responses in the encoded signature"])

p("C11","Every secret nonce, blinder and key is fresh and comes from secure randomness",
 "Each signing nonce, decoy response, commitment blinder, proof blinder, verifier weight and generated key is drawn anew and in full from the cryptographic random source, so no two operations ever share one, even at the same clock reading, after a restart or when the source returns short reads. Key generation uses only the random source it is handed, reports an error instead of a key when that source fails or ends early, and equal source contents give equal keys; the entropy helper returns exactly the requested number of source bytes.",
 ["histories","fault_sequences","configurations","schedules"],
 "all sequences of operations over several nodes with frozen, jumping or repeated clocks, restarts, and random sources that are slow, short, failing or exhausted",
 "Tests cannot see nonces, run with a real clock and a random source that never misbehaves.",
 [ML,BS,PD,RP,BLS,HS],
 [("crypto/rand through ristretto scalars","generateNonces, generateResponses, CommitToScalar, CommitToVectors, computeS, blsag.Sign"),("caller-supplied reader","bls.GenKeyPair"),("entropy helper","hash.RandEntropy")],
 ["secrets recovered algebraically from outputs and the signer's key","bytes drawn from the simulated entropy source per call"])

p("C12","Encodings survive any stream: chunked, framed, failing or truncated",
 "For every proof, commitment, inner-product proof, ring signature, key vector and response vector, decoding what was encoded yields an equal object whose re-encoding is byte-identical, no matter how the stream splits the data into reads or whether data and end-of-stream arrive together, and length-delimited objects consume exactly their own bytes so that they can follow one another on one stream. If the writer fails, is full or writes short, encoding reports an error; if the stream ends early or fails, decoding reports an error (except that a proof extending to the end of its stream, cut exactly between two of its trailing point pairs, reads as the shorter proof those bytes are).",
 ["inputs","fault_sequences"],
 "all objects, all chunkings, all failure and truncation points of the reader or writer",
 "The tests round-trip one object through a perfect in-memory buffer.",
 [RP,IP,PD,ML,"mlsag/pubkeys.go","mlsag/responses.go"],
 [("binary.Read/Write based codecs","Encode/Decode methods")],
 ["bytes written","bytes consumed","errors","decoded objects"])

p("C13","Hostile bytes cannot crash, stall or bloat a node",
 "For every byte string, every decoder in the library either returns an error or an object whose re-encoding matches the canonical reading of those bytes, and verifying, comparing, aggregating or re-encoding whatever was decoded never crashes. Work and memory stay proportional to the bytes actually received, whatever lengths or counts the bytes claim.",
 ["inputs","fault_sequences"],
 "all byte strings produced by corruption, truncation, extension, splicing of honest messages and by hostile length fields, fed to all decoders and then to all consumers",
 "Tests decode only what they just encoded.",
 [RP,IP,PD,ML,BLS,"mlsag/pubkeys.go","mlsag/responses.go"],
 [("incremental decoding","DecodeCommitments, Signature.Decode"),("point validity checks","readerToPoint, innerproduct.Proof.Decode, bn256 Unmarshal"),("shape checks before verification","rangeproof.Verify, mlsag Signature.Verify, bls.verifyBatch")],
 ["panics","bytes allocated","statements executed","decoded value vs reference decoder"])

p("C14","Merkle trees agree on the root and on membership for every history",
 "For every non-empty list of payloads, the root is the one determined by the payloads' hashes in order (pairwise hashing, last one paired with itself on odd levels), on every node and after any sequence of builds, rebuilds, in-place rebuilds from the current leaves and concurrent checks. Membership checks answer true for every contained payload and false for every other, a valid tree verifies, and building from no payload is refused.",
 ["inputs","histories","schedules"],
 "all payload lists (sizes, repetitions, differing hash lengths), all sequences of tree operations, all interleavings of read-only checks",
 "Tests use one small fixed payload list per case.",
 [MT,HS],
 [("bottom-up construction","merkletree.create/createIntermediate"),("recursive verification","VerifyNode/VerifyTree"),("leaf-to-root recomputation","VerifyContent")],
 ["MerkleRoot","VerifyTree and VerifyContent results"])

p("C15","Merkle trees detect tampering and survive failing payloads",
 "If hashing a payload fails at any point, building, rebuilding, verification and membership checks report that error and a tree being rebuilt keeps its previous root, leaves and verdicts. If any payload, stored interior hash or the stated root is altered afterwards, tree verification or the membership check that covers it no longer succeeds, and undoing the alteration restores the old verdicts.",
 ["fault_sequences","histories"],
 "all points at which payload hashing can fail during any operation, all single and multiple alterations of payloads, interior hashes and root",
 "Tests have no failing payload beyond construction and tamper at a single fixed place.",
 [MT],
 [("error propagation before state replacement","RebuildTreeUsing, create"),("hash recomputation","VerifyNode, CalculateNodeHash, VerifyContent")],
 ["errors","tree state after failed operations","verdicts"])

p("C16","Calls never modify the caller's data and sessions never affect each other",
 "No call changes any value, key, message, decoy list, commitment, proof, ring, payload hash or byte slice passed to it - including bytes beyond a slice's length that belong to the same buffer - except the receiver it is documented to update. Two signing, committing or proving sessions fed from the same inputs never influence each other's results, and a result already handed out never changes because its session or its inputs are used further.",
 ["inputs","histories","schedules"],
 "all sequences of operations on shared argument objects with arbitrary spare capacity, over several sessions",
 "Tests use each input once, with exactly sized slices, and never look at it afterwards.",
 [PR,DK,RP,PD,MT,BLS,IP,BS,"rangeproof/vector/vector.go"],
 [("copy on ingest","AddDecoy, Prove, CommitToVectors, innerproduct.Generate"),("fresh result buffers","vector, merkletree")],
 ["deep snapshots of all arguments (to full capacity) before and after each call"])

p("C17","Commitments open to their values whatever the committer did before",
 "Every commitment equals value times base plus blinder times blinding base (for vectors: plus the sum of entries times that vector's generators), with the blinder it reports, and the generators depend only on the label and position - not on how many were computed earlier, in which steps, on clearing, on earlier commitments or on which node computed them. Commitments therefore add up: sums of commitments open to the sums of values and blinders on every node.",
 ["inputs","histories","schedules"],
 "all sequences of generator extension, clearing and commitments with vectors of arbitrary lengths, on several nodes and labels",
 "Tests commit once on a fresh committer with fixed small vectors.",
 [PD,"rangeproof/generators/generator.go"],
 [("on-demand generator extension","Pedersen.commitToScalars, Generator.Compute/Iterate"),("per-vector label","Pedersen.CommitToVectors")],
 ["Commitment.Value recomputed from the definition"])

p("C18","Digests are the standard ones and hashing failures are reported",
 "For every input on every schedule the hash helpers return the standard BLAKE2b-256/512, SHA3-256/512 and 64-bit xxHash digests, and a checksum comparison succeeds exactly for the first four digest bytes of the same data, so any single alteration changes the outcome. When a supplied hash object fails, that error is reported and no digest is returned, and a later call is unaffected; concurrent or repeated calls never share state or returned buffers.",
 ["inputs","fault_sequences","schedules"],
 "all inputs of all lengths, all failing or short-writing hash objects, all interleavings and repetitions",
 "Tests compare a few short constants and never inject a failing hash object.",
 [HS],
 [("fresh hash object per call","hash.Sha3256 etc."),("error propagation","hash.PerformHash")],
 ["returned digests vs reference digests","errors"])

p("C19","Equality of objects means same content, in both directions, without crashing",
 "Comparing two proofs, inner-product proofs, commitments, ring signatures, key vectors or response vectors answers true exactly when their encodings (with or without the optional part, as requested) are identical, answers the same in both directions, and never crashes, whatever the sizes, shapes and origins of the two objects.",
 ["inputs","histories"],
 "all pairs of objects drawn from honest, mutated, truncated, extended and mixed-origin populations",
 "Tests only compare an object with its own round-tripped copy.",
 [RP,IP,PD,ML,"mlsag/pubkeys.go","mlsag/responses.go"],
 [("field-wise comparison","Equals / EqualValue methods")],
 ["Equals results vs comparison of canonical encodings"])


p("C20","Vector and polynomial algebra obeys its definitions",
 "For all equally long vectors of scalars and points the vector helpers return the mathematically defined sum, difference, product, powers, inner product and multi-exponentiation, and report an error for differing lengths.",
 ["inputs"],"all vectors of all lengths",
 "Tests use a few fixed small vectors.",
 ["rangeproof/vector/vector.go",IP],[("elementwise arithmetic","vector package")],["return values"])

p("C21","Secret-dependent operations run in time independent of the secrets",
 "The time and memory access pattern of signing, proving and committing do not depend on private keys, nonces, blinders or committed values.",
 ["inputs","configurations"],"all secrets on all platforms",
 "Tests do not measure time.",
 [RP,"rangeproof/bitCommitment.go",BLS,ML,BS],[("constant-time field arithmetic","go-ristretto, bn256")],["execution time"])

p("C22","Proofs and commitments reveal nothing about the hidden values",
 "The joint distribution of everything a range proof, commitment or ring signature publishes can be simulated without the values, blinders or signing key (beyond what the statement itself says).",
 ["inputs","programs"],"all adversaries with polynomial running time",
 "A distributional statement over all adversaries.",
 [RP,PD,ML,BS],[("blinding","rangeproof.Prove, pedersen commitments")],["published values"])

p("C23","Inner-product arguments convince every node of exactly the stated relation",
 "For vectors of every power-of-two length an inner-product argument can be generated for the committed vectors and their inner product, and every node accepts it for exactly that commitment, those generators, factors and base, also after an encode/decode round trip and whatever other arguments are generated or verified before or at the same time. If any element of the argument or of the statement is altered, exchanged, added, dropped or taken from elsewhere, verification answers false and does not crash. Vectors that are empty, not a power of two long or of unequal lengths are refused with an error.",
 ["inputs","histories","schedules","fault_sequences"],
 "all statements over vectors of 1..32 entries including trivial ones, all alterations of proof and statement in transit, all interleavings of generating and verifying on several nodes with restarts",
 "The test verifies honest proofs of fixed sizes in the process that made them.",
 [IP,"rangeproof/vector/vector.go","rangeproof/fiatshamir/fiatshamir.go"],
 [("halving rounds with Fiat-Shamir challenges","innerproduct.Generate"),("one multi-exponentiation","innerproduct.Proof.Verify / VerifScalars")],
 ["innerproduct.Generate result vs an independent verifier","innerproduct.Proof.Verify verdict vs an independent verifier"])

p("C24","Transcript challenges depend on exactly what was appended, in order",
 "A challenge derived from a Fiat-Shamir transcript is the one determined by all bytes appended since it was created or cleared, in their order, and by nothing else: not by deriving or reading before, by what happens later to the appended buffers, by other transcripts, concurrent calls or the node. Reading a transcript returns exactly those bytes, and bytes already returned never change through further use of the transcript.",
 ["histories","schedules"],
 "all histories of append, derive, read and clear on several transcripts fed from shared and reused buffers, in all interleavings and with restarts",
 "The tests append and clear once on one transcript and compare the bytes.",
 ["rangeproof/fiatshamir/fiatshamir.go"],
 [("transcript cache","fiatshamir.HashCacher")],
 ["HashCacher.Derive and Result vs a model of the appended bytes"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80,x['title']
    import re
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)
print(len(P))
