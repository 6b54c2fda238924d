import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files[:2])} for m in mech]}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="src/goldilocks.rs"; E="src/eddsa.rs"; X="src/extended_point.rs"; BN="src/bignumber.rs"; SC="src/scalar.rs"; LB="src/lib.rs"
prop("C01","Derived public keys are exactly the Ed448 public keys of RFC 8032",
 "For every 57-byte key, the derived public key is the RFC 8032 Ed448 encoding of scalar*B. The scalar is the clamped first 57 bytes of SHAKE256(key) for a private key (top bit of the last byte clear, or any key when the private-key function is called explicitly), and the clamped key itself for a secret-form key (top bit set, or any key when the secret-key function is called explicitly). Converting a private key to its secret form never changes the public key, and the converted key is always recognised as secret-form.",
 ["inputs"],"all 2^456 keys in both forms, including keys whose scalar is 0 mod the group order, has long runs of zero/one bits, or needs carries at word boundaries",
 "Five fixed vectors plus 100 random self-consistency runs; no independent oracle, and nothing reaches edge scalars.",
 [G,E,X,SC,"src/decaf_combs_32.rs"],["key form chosen by the top bit of byte 56","clamping of the scalar","comb multiplication over the precomputed base-point table","division by 4 before, isogeny-encoding after"])
prop("C02","Signatures are byte-for-byte the deterministic Ed448 signatures of RFC 8032",
 "For every key and every message of any length and content, signing returns exactly the 114 bytes R||S that RFC 8032 Ed448 (empty context, no prehash) prescribes for the key's scalar and nonce prefix. The prefix is the second half of SHAKE256(key) for a private key, the clamped key itself for a secret-form key, and the caller's 57 bytes for explicit-nonce signing. The whole message enters both hashes and signing the same input again returns the same bytes.",
 ["inputs"],"all keys in both forms, all explicit nonces, all messages of length 0 upwards",
 "Three fixed 43-byte-message vectors; message length never varies and the result is compared with stored bytes only.",
 [G,E,SC,X],["dom4 prefix hashing","nonce and challenge reduced modulo the group order","S = r + k*s modulo the group order, fixed-width little-endian"])
prop("C03","Every signature the library produces verifies under the matching public key",
 "For every key in either form and every message, a signature made by any of the signing routes (plain, private-key, secret-form, explicit nonce, key-object prehash signing) is accepted for the same message by both verification functions under the public key the library derives for that key. This also holds across forms: a signature made with a private key's secret form verifies under the public key of the private key.",
 ["inputs"],"all keys, all messages, all signing routes crossed with both verification functions",
 "100 random keys with a single fixed message through one route.",
 [G,E,LB,X],["sign and verify agree on hash input, group order and base point","prime-order subgroup decoding and cofactor handling"])
prop("C04","Nothing but the signed message, signature and public key is accepted",
 "For a signature made by the library with any key (whose scalar is not a multiple of the group order), changing the message in any way (edit, extension, truncation), any part of the 114 signature bytes, or the public key to any other 57 bytes makes both verification functions refuse: they return false or an error, never acceptance.",
 ["inputs"],"all valid triples crossed with all single and multiple edits of message, signature or public key, and swaps of components between valid triples",
 "Only one unrelated public key per random run is tried, with one message; message and signature edits are never tried.",
 [E,G,X],["challenge binds R, public key and message","group equation check","strict decoding of R, S and the public key"])
prop("C05","The verification verdict is exactly that of RFC 8032, on adversarial inputs too",
 "For every 57-byte public key, 114-byte signature and message, verification accepts if and only if RFC 8032 Ed448 verification (group equation multiplied by the cofactor 4, challenge hash over the bytes of R, the public key and the message as given) accepts, except that the all-zero public key and the all-zero signature are always refused. In particular points with a small-order component, the identity, negated points and extreme response scalars get the verdict the standard gives.",
 ["inputs"],"all (public key, signature, message) triples, in particular those only an attacker would craft: small-order components in key or R, identity and order-2/4 points, S in {0,1,L-1,...}",
 "Tests use honest inputs plus one undecodable key and the all-zero pair; no torsion, no edge scalar.",
 [E,X,G],["decoding maps to the prime-order subgroup","double-scalar multiplication with signed-digit recoding","cofactored comparison of points"])
prop("C06","Public keys and signatures have exactly one accepted encoding",
 "Apart from the refusal of all-zero input, decoding of public keys and of R accepts every canonical encoding of a curve point and nothing else: the y coordinate must be below the field prime, the seven spare bits zero, the point on the curve, and the sign bit clear when x is zero. The response scalar S must be below the group order. So from an honestly made signature nobody can make a different key or signature string (S plus a multiple of the order, y plus the prime, a spare bit set, a small-order component added to key or R) that verifies for the same message.",
 ["inputs"],"all 57- and 114-byte strings, in particular values in [p, 2^448), S in [L, 2^456), both sign bits at x = 0, off-curve points whose residual is tiny or lives in a single limb, and valid points with unusual limb patterns",
 "One test feeds one undecodable key; range boundaries, limb patterns and alternative encodings are never generated.",
 [BN,X,E,SC],["comparison of the parsed y with the prime","curve-equation check after decompression","comparison of S with its reduced form"])
prop("C07","Verification never panics and reports the defect that is really there",
 "For byte strings of any length and content as public key, signature and message, both verification functions return: they never panic, abort or overflow. A public key that is not 57 bytes gives the public-key-length error and a signature shorter than 114 bytes the signature-length error; an undecodable public key or R gives the corresponding decode error; the all-zero 57-byte key or 114-byte signature gives the invalid-signature error; everything well-formed that is not accepted is reported as false (or invalid signature). When several defects are present, the error names one of them.",
 ["inputs"],"all (public key, signature, message) byte strings of all lengths, including 0, 1, 56, 57, 58, 113, 114, 115, 171 and large",
 "Two error cases with full-length inputs; no other length is ever passed.",
 [E,G,X,"src/errors.rs"],["length checks before slicing","mapping of decode errors to key/signature errors"])
prop("C08","Both verification functions always agree",
 "For every input, the error-returning verification succeeds exactly when the boolean verification returns true; where the boolean one returns false the other returns the invalid-signature error, and where the boolean one returns an error the other returns the same error.",
 ["inputs"],"all byte strings of all lengths: valid, tampered, malformed, adversarial",
 "The error-returning function is not exercised by any test.",
 [G,E],["shared verification core","shared zero-value refusal"])
prop("C09","Keys survive serialization unchanged",
 "For each of the three key types and every key value, serializing to JSON yields the quoted 114-digit lower-case hexadecimal form of its bytes (for a signing key, the private bytes), and deserializing that text - also with upper- or mixed-case digits, inside larger documents, through escaped text or a reader - yields an equal key. A deserialized signing key behaves exactly like one built from the bytes.",
 ["inputs"],"all 57-byte values for all three key types, all letter-case patterns, several deserializer front ends",
 "One constant key (0x01 repeated) per type.",
 [LB],["hex encoding in Serialize","human-readable branch of Deserialize","recomputation of the public key for signing keys"])
prop("C10","Malformed serialized keys are refused with an error, never a panic or a key",
 "Deserializing any of the three key types from any document that is not a string of exactly 114 hexadecimal digits (wrong length, odd length, other characters, non-ASCII, other JSON types, truncated JSON) returns an error: it neither panics nor produces a key. From a non-human-readable format, deserialization always returns an error.",
 ["inputs"],"all JSON texts and all byte strings given to a binary format",
 "Tests only deserialize well-formed text.",
 [LB],["error mapping in the Deserialize implementations"])
prop("C11","Byte and hex constructors accept exactly well-formed input and keep it verbatim",
 "The hex parsers (32-byte hash, 57-byte key, 114-byte signature, and the key types' string constructors) accept exactly the strings of the right number of hexadecimal digits, in any letter case, and return those bytes in order; the byte constructors accept exactly 57 bytes and keep them verbatim. Anything else never yields a value: the fallible signing-key constructor returns the invalid-length error carrying the actual length, and the others panic.",
 ["inputs"],"all strings and all byte slices of all lengths",
 "One fixed string and one constant byte array; no wrong length, no invalid digit.",
 [LB,G,"src/errors.rs"],["exact-length hex decoding","length check in from_bytes / try_into"])
prop("C12","A signing key is the same key whichever way it was built, and signs as one",
 "For every 57 bytes, signing keys built from the hex string, the slice, the fallible byte constructor, conversion of a secret key, a random source that yields those bytes, or deserialization are all equal, return exactly those bytes, hold the equal secret key, and carry the public key that derivation gives for those bytes; keys of different bytes are never equal. Prehash signing with such a key always succeeds and returns 171 bytes: the 114-byte signature of the message followed by that public key.",
 ["inputs","histories"],"all 57-byte values, all construction routes and chains of conversions, all messages",
 "Key-object signing, the secret-key conversion and random construction have no test at all.",
 [LB,G],["public key computed in every constructor","layout of the 171-byte signature"])
prop("C13","Generated keys are fresh and use all of the randomness",
 "A signing key built from a caller-supplied random source consists of exactly the next 57 bytes of that source and consumes no others. Keys from the library's own generator never repeat across calls, threads or process runs, and every one of their 456 bits is unbiased and independent of the others.",
 ["inputs","histories","schedules"],"all random streams; all sequences of generator calls across threads and processes",
 "The generator is only used as a source of test keys; its output is never examined.",
 [LB,G],["fill of the whole key buffer from the source","operating-system seeded thread-local generator"])
prop("C14","Results depend only on the arguments, whatever was called before or concurrently",
 "Key derivation, signing, verification, serialization and constructors are pure: for every sequence of calls, including failing and panicking ones, and every interleaving across threads, each call returns what it would return alone in a fresh process, and never modifies its inputs.",
 ["histories","schedules","inputs"],"all call sequences over related and unrelated keys, messages and signatures, with errors and panics in between, in one or several threads",
 "Each test makes a few independent calls; no sequence, repetition or concurrency.",
 [G,E,X,LB],["no global or thread-local state besides the random generator","arguments copied before being modified"])
prop("C15","Base-field arithmetic is exact and independent of the representation",
 "For all operands in the representation the curve code produces (redundant limbs included), addition, subtraction, negation, multiplication, squaring, multiplication by curve constants, inversion and inverse square root give the right residue modulo 2^448-2^224-1. Equality, the sign bit and serialization depend only on the residue, and parsing 56 bytes gives that residue and reports correctly whether it was below the prime.",
 ["inputs"],"all field elements in all redundant limb representations within the documented headroom, in particular residues near 0, p, 2^224 and 2^448 and limbs near 2^28 and 2^29",
 "One or two fixed operands per operation.",
 [BN,"src/karatsuba_32.rs","src/karatsuba_square_32.rs","src/constants32.rs"],["28-bit limb representation with headroom","Karatsuba multiplication and squaring","bias before subtraction","weak and strong reduction"])
prop("C16","Scalar arithmetic modulo the group order is exact",
 "For all scalars below the group order, addition, subtraction, halving, multiplication and Montgomery multiplication give the fully reduced exact result; reducing a little-endian byte string of any length gives its value modulo the group order; encoding gives the 57-byte little-endian form.",
 ["inputs"],"all scalars including 0, 1, L-1, values near word boundaries and 2^446; all byte strings of length 0..4*57, including multiples of L and all-ones",
 "A handful of fixed operands; carries between words at the boundaries of the order are not reached.",
 [SC,"src/constants32.rs"],["borrow/carry chains over 14 words","Montgomery reduction with final conditional subtraction","Horner evaluation of long inputs in 56-byte blocks"])
prop("C17","Point operations and all scalar multiplications agree with the group law",
 "For all points of the prime-order group in any projective representation and all scalars, doubling, adding, subtracting, conditional negation, fixed-base multiplication, variable-base multiplication and the combined double multiplication give the point the group law prescribes; point equality holds exactly for equal group elements and the on-curve test exactly for valid coordinates. Every entry of the precomputed tables takes part.",
 ["inputs","histories"],"all points, all scalars (0, 1, L-1, powers of two, sparse and dense digit patterns), all sequences of point operations",
 "One fixed doubling, one addition and the zero scalar; table entries and digit recoding are only touched by accident.",
 [X,"src/decaf_combs_32.rs","src/decaf_wnaf_table.rs"],["extended twisted Edwards formulas","comb, fixed-window and signed-digit recodings","precomputed base-point tables"])
prop("C18","Point encoding and decoding are mutually inverse and exact",
 "Every element of the prime-order group encodes to the RFC 8032 encoding of that element whatever its projective representation, decoding that encoding gives the same element back, and distinct elements have distinct encodings. Decoding an arbitrary 57-byte string succeeds exactly when RFC 8032 decoding does, and then yields the prime-order part of that point; any other length is refused.",
 ["inputs"],"all group elements in all representations, all byte strings",
 "One fixed encoding is decoded; re-encoding of arbitrary points is never checked.",
 [X,BN],["4-isogeny to and from the twisted curve","inverse square root decompression","strong reduction before serialization"])
with open("/verif/properties.jsonl","w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
