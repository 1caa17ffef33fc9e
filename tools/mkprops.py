#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay reviewable)."""
import json, os
R = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    R.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

P("C01", "Every signature is valid, low-S, and recoverable to the signer",
  "For every secret key in [1, n-1] and every 32-byte message, signing terminates and returns (r, s) with 1 <= r < n and 1 <= s <= (n-1)/2, together with a recovery id in 0..3. That signature verifies for that message under the public key derived from the secret key, and recovering with the returned id gives exactly that public key.",
  ["inputs", "histories"], "all secret keys x all 32-byte messages, including extreme scalars and messages >= n, and also when nonces are supplied explicitly to the raw signing operation",
  "The tests sign a handful of random or fixed inputs; a defect tied to a particular scalar, carry, parity or high-S combination is hit with negligible probability.",
  ["src/lib.rs", "core/src/ecdsa.rs", "core/src/ecmult.rs", "core/src/scalar.rs"],
  [("sign_with_context", "src/lib.rs"), ("sign_raw: low-S negation flips the recovery parity", "core/src/ecdsa.rs"), ("verify_raw", "core/src/ecdsa.rs"), ("recover_raw", "core/src/ecdsa.rs")],
  [("Signature.r/s, RecoveryId", "what sign returns", "src/lib.rs")], ["return value of sign", "return value of verify/recover on it"])

P("C02", "Signing is deterministic and follows RFC 6979 with HMAC-SHA256",
  "The signature is a function of the secret key and the message reduced modulo n only: the nonce is the first output of the RFC 6979 HMAC-SHA256 generator seeded with the key and the message that lies in [1, n-1] and does not make s zero, later outputs of the same generator being tried only when an earlier one is unusable. r, s and the recovery id are then the ECDSA values for that nonce with s replaced by n-s (and the parity bit of the id flipped) when s > (n-1)/2. Repeating or interleaving signing calls never changes a result.",
  ["inputs", "histories"], "all keys and messages; all sequences of signing calls; nonce candidates rejected any number of times",
  "No test compares a signature with a known-answer vector (only that it verifies), so a change of nonce derivation passes all of them.",
  ["src/lib.rs", "core/src/ecdsa.rs"],
  [("HMAC-DRBG retry loop", "src/lib.rs sign_with_context"), ("sign_raw", "core/src/ecdsa.rs")],
  [("drbg", "generator state carried across retries", "src/lib.rs")], ["return value of sign"])

P("C03", "Verification accepts exactly the valid ECDSA signatures",
  "For every public key Q, message z and signature (r, s) with components in [0, n-1], verification returns true if and only if r and s are nonzero, the point (z/s)G + (r/s)Q is not the point at infinity, and its x coordinate is congruent to r modulo n. In particular (r, s) and (r, n-s) get the same answer, x coordinates in [n, p) are handled, and no input makes it panic.",
  ["inputs"], "all (Q, z, r, s), including zero components, r below p-n whose point has x = r+n, r at or above p-n, high s, and keys that make the sum infinite or make the two summands equal or opposite",
  "Random honest signatures reach only the common path; the wycheproof file has fixed vectors for a few special cases, and rejection is tested with two values of r.",
  ["core/src/ecdsa.rs", "src/lib.rs", "core/src/ecmult.rs", "core/src/group.rs"],
  [("verify_raw: zero checks, x comparison in Jacobian form, r+n second chance", "core/src/ecdsa.rs")],
  [], ["return value of verify / verify_with_context"])

P("C04", "Recovery returns exactly the key that made the signature verify",
  "For message z, signature (r, s) and recovery id i in 0..3, recovery succeeds if and only if r and s are nonzero, i >= 2 implies r < p-n, a curve point R with x coordinate r (+ n when i >= 2) and y parity i mod 2 exists, and sR - zG is not infinity; it then returns the public key (sR - zG)/r and otherwise reports an invalid signature. The recovered key always verifies that signature, and a key verifies a signature only if some id recovers it.",
  ["inputs"], "all (z, r, s, i), including r close to p-n and n, r that is no x coordinate, and inputs whose recovered point would be infinity",
  "Tests recover honest signatures only, whose id is always 0 or 1; ids 2 and 3 and every rejection path are never executed.",
  ["core/src/ecdsa.rs", "core/src/group.rs", "src/lib.rs"],
  [("recover_raw", "core/src/ecdsa.rs"), ("set_xo_var", "core/src/group.rs")], [], ["return value of recover / recover_with_context"])

P("C05", "The derived public key is the generator multiplied by the secret key",
  "For every secret key k in [1, n-1] the derived public key is the affine point k*G of secp256k1 (y^2 = x^3 + 7 with the standard generator), whichever context is used to derive it. Distinct secret keys give distinct public keys.",
  ["inputs"], "all secret keys, including those that select every entry of the precomputed generator table and those whose blinded value wraps around n or is 0",
  "Two fixed keys and a few random ones are compared; each touches only 64 of the 1024 table entries and no carry or wrap-around corner.",
  ["src/lib.rs", "core/src/ecmult.rs", "gen/genmult/src/lib.rs"],
  [("ecmult_gen (blinded comb)", "core/src/ecmult.rs"), ("set_gej", "core/src/group.rs")],
  [("ECMultGenContext.prec/blind/initial", "comb table and blinding pair", "core/src/ecmult.rs")], ["PublicKey::serialize"])

P("C06", "Public-key decoding accepts exactly the valid encodings",
  "A byte string is accepted as a public key if and only if it is a 65-byte string 04|X|Y or 06/07|X|Y with matching parity, a 33-byte string 02/03|X, or (through the slice form) a 64-byte string X|Y, where every coordinate is a canonical integer below p and the point lies on the curve; the result is that point, with the y parity the tag asks for. When a format is requested explicitly only that format's length is accepted; a wrong length reports an input-length error and every other rejection reports an invalid public key, and converting a raw affine point is accepted under the same curve condition.",
  ["inputs"], "all byte strings of all lengths and all requested formats; all affine points",
  "Tests parse only valid keys; no invalid tag, non-canonical coordinate, off-curve point, parity mismatch or length/format mismatch is tried.",
  ["src/lib.rs", "core/src/field.rs", "core/src/group.rs"],
  [("parse / parse_compressed / parse_slice", "src/lib.rs"), ("Field::set_b32 range check", "core/src/field.rs"), ("is_valid_var, set_xo_var", "core/src/group.rs")],
  [], ["Result of the parse functions and TryFrom<Affine>"])

P("C07", "Public-key encodings round-trip and equality means same point",
  "However a public key value was obtained (decoding, derivation, tweaking, combining, recovery), its 65-byte form is 04 followed by the canonical big-endian coordinates and its 33-byte form is 02 or 03 by y parity followed by the canonical x, and decoding either gives a key equal to the original. Two public keys compare equal if and only if they are the same point, regardless of how they were computed.",
  ["inputs", "histories"], "all points and all ways of producing them (internal representations of the same point differ by history)",
  "Only keys derived directly from random secrets are round-tripped; keys coming out of recovery, tweaking or combining carry other internal representations.",
  ["src/lib.rs", "core/src/field.rs", "core/src/group.rs"],
  [("serialize / serialize_compressed normalise first", "src/lib.rs"), ("PartialEq for Field", "core/src/field.rs")],
  [("Affine.x/y", "lazily normalised coordinates", "core/src/group.rs")], ["serialize", "serialize_compressed", "=="])

P("C08", "Secret keys are exactly the integers 1..n-1 and are encoded faithfully",
  "A 32-byte string decodes to a secret key if and only if its big-endian value is in [1, n-1], other lengths report an input-length error, converting a raw scalar accepts the same range, and random generation returns the first acceptable 32-byte block of the generator's output consuming exactly the blocks up to it. Serialising, converting to a scalar and formatting in lower-case hexadecimal all denote the same big-endian value that was decoded. The default key is 1 and inversion returns the multiplicative inverse modulo n.",
  ["inputs", "histories"], "all byte strings, all raw scalars, all random-generator output streams",
  "Tests decode a few valid keys; boundaries 0, n-1, n, 2^256-1, rejected random blocks and the textual form are never exercised.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("SecretKey::parse / parse_slice / TryFrom<Scalar> / random", "src/lib.rs"), ("Scalar::set_b32, check_overflow, inv", "core/src/scalar.rs")],
  [], ["Result of parse", "serialize", "format!(\"{:x}\")"])

P("C09", "Secret-key and public-key tweaks commute with derivation",
  "Adding a tweak t to a secret key k gives k+t mod n and to a public key P gives P + t*G; multiplying gives k*t mod n and t*P. For P = k*G the tweaked public key is always the public key of the tweaked secret key, the additive tweaks of both kinds fail with a tweak-out-of-range error exactly when the result would be zero or infinity, and multiplicative tweaks fail exactly when the tweak is zero. A failed tweak leaves the key unchanged.",
  ["inputs", "histories"], "all keys, tweaks and sequences of tweaks, including t = -k, t = k, t = 1, t = n-1 and cleared tweaks",
  "No test calls any tweak operation.",
  ["src/lib.rs", "core/src/ecmult.rs", "core/src/group.rs", "core/src/scalar.rs"],
  [("tweak_add_assign / tweak_mul_assign (secret and public)", "src/lib.rs"), ("ecmult", "core/src/ecmult.rs")],
  [("SecretKey, PublicKey", "mutated in place", "src/lib.rs")], ["Result and the key after the call"])

P("C10", "Combining public keys is the group sum",
  "Combining a list of public keys returns the sum of all of them as curve points, for every order of the list, with repeated keys counted each time and also when partial sums cancel. It fails with an invalid-public-key error exactly when the list is empty or the sum is the point at infinity.",
  ["inputs"], "all finite lists of keys, including duplicates, opposite keys, and pairs of different points whose y coordinates are opposite (x differing by a cube root of unity)",
  "One fixed pair of unrelated keys is combined.",
  ["src/lib.rs", "core/src/group.rs"],
  [("combine", "src/lib.rs"), ("add_ge (complete addition with degenerate-case handling)", "core/src/group.rs")], [], ["Result of combine"])

P("C11", "ECDH is symmetric and hashes the compressed shared point",
  "For every public key P and secret key k the shared secret is the chosen digest of the 33-byte compressed form (02/03 by y parity, then x) of the point k*P. Hence both parties obtain the same secret, and a zero (cleared) secret key is rejected with an invalid-secret-key error.",
  ["inputs"], "all points, all scalars including 1, 2, n-1, n-2, even/odd and high/low ones, and all digests",
  "Two random key pairs are compared with the C library; scalar corner cases of the constant-time recoding are not reached.",
  ["src/lib.rs", "core/src/ecdh.rs", "core/src/ecmult.rs"],
  [("ecdh_raw", "core/src/ecdh.rs"), ("ecmult_const with skew correction", "core/src/ecmult.rs")], [], ["SharedSecret::as_ref"])

P("C12", "Strict DER accepts exactly canonical encodings and round-trips",
  "Strict DER decoding accepts exactly the byte strings that are one SEQUENCE, with exact minimal length and nothing after it, of two minimally encoded non-negative INTEGERs of at most 32 significant bytes each; a component equal to or above n is decoded as 0, so it can never verify. Encoding any signature gives the unique such string of at most 72 bytes, and decoding it returns the same signature. Every other input is rejected with an invalid-signature error.",
  ["inputs"], "all byte strings; all signatures (r, s) with components in [0, n-1]",
  "One random signature is round-tripped and wycheproof gives fixed malformed samples; the grammar's boundary cases (zero components, lengths, padding at each position) are not covered.",
  ["src/lib.rs", "core/src/der.rs"],
  [("parse_der, serialize_der", "src/lib.rs"), ("Decoder::read_len, read_integer", "core/src/der.rs")],
  [("Decoder cursor", "position in the input", "core/src/der.rs")], ["Result of parse_der", "serialize_der().as_ref()"])

P("C13", "Lax DER decoding follows the historical permissive grammar",
  "Lax DER decoding succeeds exactly on inputs that start with 30, a length header (any value, its extra bytes skipped) and two INTEGER elements with tag 02, a short or long-form length (leading zero length bytes allowed, fewer than 8 significant ones) that fits in the remaining input, and that many content bytes, ignoring anything afterwards; the components are the contents as unsigned integers, replaced by 0 when not below n. Every strictly decodable input decodes laxly to the same signature.",
  ["inputs"], "all byte strings",
  "Seven well-formed historical signatures are only checked to be accepted; values, malformed lengths, padding and truncation are not.",
  ["src/lib.rs", "core/src/der.rs"],
  [("parse_der_lax", "src/lib.rs"), ("read_seq_len_lax, read_len_lax, read_integer_lax", "core/src/der.rs")],
  [], ["Result of parse_der_lax"])

P("C14", "Fixed-size signatures, messages and recovery ids are decoded exactly",
  "Standard 64-byte signature decoding accepts exactly the strings whose two big-endian halves are both below n and overflowing decoding accepts every 64-byte string reducing each half modulo n; serialising returns the two components, so standard decoding and serialising are mutually inverse. A message is any 32-byte string reduced modulo n. Recovery ids decode exactly from 0..3 (plain) or 27..30 (RPC form) and serialise back to 0..3; every wrong slice length reports an input-length error.",
  ["inputs"], "all byte strings of all lengths and all 256 byte values",
  "Only honest values are decoded; none at or above n, no wrong lengths, no RPC ids.",
  ["src/lib.rs", "core/src/scalar.rs"],
  [("parse_standard / parse_overflowing / Message::parse / RecoveryId::parse_rpc", "src/lib.rs"), ("Scalar::set_b32 reduce", "core/src/scalar.rs")], [], ["Result of the parse functions", "serialize"])

P("C15", "Low-S normalisation maps each signature to its unique low twin",
  "Normalising a signature leaves r unchanged and replaces s by n-s exactly when s > (n-1)/2, so the result always has s <= (n-1)/2, normalising twice equals normalising once, and (r, s) and (r, n-s) normalise to the same signature. Verification gives the same answer before and after normalising.",
  ["inputs"], "all signatures, in particular s around (n-1)/2, s = 0 and values equal to (n-1)/2 in their upper words",
  "One high-S signature is normalised in the tests.",
  ["src/lib.rs", "core/src/scalar.rs"], [("normalize_s", "src/lib.rs"), ("Scalar::is_high, cond_neg_assign", "core/src/scalar.rs")], [], ["Signature.s after the call"])

P("C16", "Serde encodings of public keys are faithful and validating",
  "In human-readable formats a public key is the standard padded base64 text of its 65-byte form and in binary formats it is those 65 bytes; decoding gives back an equal key. Decoding also accepts the 33-byte and 64-byte forms, and fails for text that is not canonical base64, any other length, and any bytes the ordinary decoder rejects.",
  ["inputs"], "all public keys; all text and byte inputs",
  "One fixed key is encoded and decoded; no invalid input is tried.",
  ["src/lib.rs"], [("Serialize/Deserialize for PublicKey, the two visitors", "src/lib.rs")], [], ["serde_json and bincode round trips"])

P("C17", "Scalar arithmetic is exact arithmetic modulo n",
  "For all scalars in [0, n-1], addition, multiplication, squaring, negation, inversion, conditional negation, right shift, bit extraction and the zero/one/even/high predicates give the mathematically exact results with canonical values, and loading 32 bytes gives the value modulo n and reports whether it was at least n. Inversion maps 0 to 0.",
  ["inputs"], "all pairs of scalars, in particular those with all-ones or all-zero machine words that create long carry chains, and values around n, n/2 and 2^256-n",
  "Scalar operations are only exercised inside protocols with random operands, where a long carry has probability about 2^-32.",
  ["core/src/scalar.rs"], [("mul_512, sqr_512, reduce_512, reduce, check_overflow, is_high, cond_neg_assign, inv_in_place, bits_var, shr_int", "core/src/scalar.rs")],
  [("Scalar.0", "eight little-endian 32-bit words", "core/src/scalar.rs")], ["Scalar::b32"])

P("C18", "Field arithmetic is exact modulo p in every allowed representation",
  "For every field element, in every internal representation reachable within the documented magnitude limits, addition, negation, small-integer and full multiplication, squaring, inversion, square root, conditional move, storage conversion, normalisation (all variants), zero tests, comparison and equality give the exact results modulo p; normalising yields the canonical value and loading 32 bytes accepts exactly values below p. Two representations of the same value are indistinguishable by any of these results.",
  ["inputs", "histories"], "all sequences of field operations within the magnitude rules, including non-canonical representations of 0, values between p and 2^256 and limbs at their maximum",
  "No test drives the field directly; normalisation's final reduction is needed for about one in 2^200 random inputs.",
  ["core/src/field.rs"], [("normalize*, normalizes_to_zero*, mul_inner, sqr_inner, neg_in_place, sqrt, inv, cmp_var, set_b32", "core/src/field.rs")],
  [("Field.n/magnitude/normalized", "lazily reduced 10x26-bit limbs", "core/src/field.rs")], ["Field::b32 after normalize"])

P("C19", "Point operations implement the complete group law",
  "Every addition, mixed addition, addition with a shared denominator, doubling, negation, coordinate conversion, x-comparison and curve-membership test on curve points returns the result prescribed by the group law for every pair of inputs in every coordinate representation, including equal points, opposite points, either or both at infinity where the operation admits it, and points with opposite y but different x. Lifting an x coordinate gives the point with the requested parity if and only if one exists.",
  ["inputs", "histories"], "all pairs of points and all projective representations of them",
  "Exceptional cases have negligible probability for random points and no test constructs them.",
  ["core/src/group.rs"], [("add_var_in_place, add_ge_in_place, add_ge_var_in_place, add_zinv_var_in_place, double_var_in_place, set_gej*, eq_x_var, set_xo_var, is_valid_var, table conversions", "core/src/group.rs")],
  [("Jacobian.x/y/z/infinity", "projective point", "core/src/group.rs")], ["affine coordinates of the result"])

P("C20", "Scalar multiplication is correct for every scalar and point",
  "The variable-time combination a*P + b*G, the constant-time product k*P and the generator product k*G equal the exact curve point for every scalar in [0, n-1] (k nonzero for the constant-time form) and every point P on the curve, including results at infinity and intermediate sums that cancel, coincide or hit infinity.",
  ["inputs"], "all scalars and points, in particular scalars with extreme digit recodings (runs of ones, top bit set, n-1, n-2, (n+-1)/2, powers of two) and points that are small multiples of G",
  "Random scalars never create cancelling partial sums nor extreme recodings.",
  ["core/src/ecmult.rs", "core/src/scalar.rs", "core/src/group.rs"], [("ecmult, ecmult_wnaf, table_get_ge*, ecmult_const, ecmult_wnaf_const, ecmult_gen", "core/src/ecmult.rs")],
  [("pre_a, wnaf digits, skew", "recoding state", "core/src/ecmult.rs")], ["affine coordinates of the result"])

P("C21", "Precomputed tables are correct and all contexts are interchangeable",
  "The odd-multiples table holds (2i+1)*G for every index, and in the generator comb entry i of window j exceeds entry 0 of that window by i*16^j*G while the entries 0 of all windows sum to infinity. The tables built into the library, those built on the heap and those built lazily are identical, and every operation gives the same result whichever context it is given.",
  ["inputs", "configurations"], "all 16384 + 1024 table entries in every context flavour; all operations that take a context",
  "Tests use only the built-in tables and touch a random small part of them.",
  ["core/src/ecmult.rs", "gen/ecmult/src/lib.rs", "gen/genmult/src/lib.rs", "build.rs", "src/lib.rs"],
  [("ECMultContext::new_boxed, ECMultGenContext::new_boxed, new_from_raw", "core/src/ecmult.rs"), ("generate_to", "gen/*/src/lib.rs"), ("ECMULT_CONTEXT, ECMULT_GEN_CONTEXT", "src/lib.rs")],
  [("pre_g, prec", "precomputed tables", "core/src/ecmult.rs")], ["inspect_raw", "results of *_with_context"])

P("C22", "No untrusted byte input can crash the library",
  "Every decoding entry point (public keys, secret keys, signatures in all four encodings, messages, recovery ids, serde) and every verification or recovery call on whatever was decoded returns normally for every input of every length, in checked and in optimised builds, and both builds give the same answer.",
  ["inputs", "configurations"], "all byte strings, including truncated, over-long, empty and length-field-lying ones; both build profiles",
  "Tests feed mostly well-formed data and run only the checked build.",
  ["src/lib.rs", "core/src/der.rs", "core/src/ecdsa.rs", "core/src/field.rs"],
  [("bounds checks in Decoder", "core/src/der.rs"), ("length checks in *_slice", "src/lib.rs")], [], ["absence of panics", "result of each call"])

P("C23", "Clearing a secret really erases it",
  "Clearing a secret key (or scalar, field element or point) overwrites its whole in-memory representation so that no byte of the old value remains, even when the value is dropped immediately afterwards in an optimised build. Afterwards the key reports that it is zero, equals no valid key, and key agreement and multiplicative tweaking with it are refused.",
  ["inputs", "histories", "configurations"], "all key values and all operations before and after clearing; optimised and checked builds",
  "The existing test clears one key and reads it back in a debug build, so an erasure the optimiser removes is not noticed.",
  ["src/lib.rs", "core/src/scalar.rs", "core/src/field.rs", "core/src/group.rs"], [("SecretKey::clear, Scalar::clear (volatile write)", "core/src/scalar.rs")],
  [("Scalar words", "secret material in memory", "core/src/scalar.rs")], ["memory of the object at deallocation", "is_zero, serialize"])

P("C24", "Every supported feature set and build profile builds and behaves the same",
  "The library builds with every combination of its documented features, including without the standard library, with and without signing, and with built-in, lazily built or no precomputed tables; the operations each combination provides are those the documentation promises. Any operation available in two combinations or build profiles gives identical results in both.",
  ["configurations", "inputs"], "all subsets of the features std, hmac, static-context, lazy-static-context and both build profiles",
  "The test suite runs one feature set in one profile.",
  ["Cargo.toml", "core/Cargo.toml", "src/lib.rs", "core/src/lib.rs"], [("cfg(feature = ...) gates", "src/lib.rs")], [], ["cargo build result", "results of all operations per configuration"])

P("C25", "Key histories stay consistent and failed operations change nothing",
  "Along every history of creating, tweaking, combining, inverting, serialising and re-decoding keys, a public key derived from a secret key remains the public key of that secret key as long as both undergo the same tweaks, in any order and interleaved with operations on other keys. Operations only change the object they are called on, failed operations change nothing, and no operation's result depends on anything but its arguments.",
  ["histories"], "all finite histories of API calls over a set of keys and signatures",
  "No test performs more than one mutating operation on a key.",
  ["src/lib.rs"], [("in-place tweak operations", "src/lib.rs"), ("value semantics of the key types", "src/lib.rs")],
  [("the caller's keys and signatures", "values mutated in place", "src/lib.rs")], ["all values after every call"])

P("C26", "Shared contexts are safe and result-transparent under concurrency",
  "Any number of threads using the library at the same time, including racing to be the first user of lazily built tables, obtain exactly the results a single thread would obtain. Lazily built tables are built once and every thread sees the same completed tables.",
  ["schedules"], "all interleavings of calls from several threads, from the very first use on",
  "No test uses more than one thread on purpose or the lazily built tables.",
  ["src/lib.rs", "core/src/ecmult.rs"], [("lazy_static contexts", "src/lib.rs"), ("immutable shared context references", "core/src/ecmult.rs")],
  [("ECMULT_CONTEXT, ECMULT_GEN_CONTEXT", "shared tables", "src/lib.rs")], ["results per thread", "address of the tables seen by each thread"])

P("C27", "The DER reader is a faithful cursor and reads lengths and integers exactly",
  "util::Decoder over any octet string behaves as a cursor: remaining_len is what has not been consumed, read/peek/peek_slice/skip return or pass over exactly the next octets when there are enough of them and otherwise fail without moving. read_len accepts exactly short-form lengths and shortest long-form lengths that do not exceed what follows them, and returns them; read_integer accepts exactly minimally encoded INTEGERs of at most 32 significant octets that fit, returns the scalar (0 when not below n) and consumes exactly them (negative INTEGERs excepted); the lax calls follow the permissive grammar of property C13 in the same way. A SignatureArray of length n exposes exactly n octets.",
  ["inputs", "histories"], "all octet strings, all sequences of reader calls",
  "No test uses the reader directly; signatures are too short to reach long-form lengths that matter.",
  ["core/src/der.rs"], [("Decoder", "core/src/der.rs"), ("SignatureArray", "core/src/der.rs")],
  [("Decoder.1", "octets consumed", "core/src/der.rs")], ["results of the reader's calls", "remaining_len"])

P("C28", "Operations on secrets run the same way whatever the secret is",
  "In optimised builds, which memory addresses are touched, in which order, and how many instructions run while a secret is used does not depend on the secret (but for a few instructions that touch no memory, where the compiler chooses between two values held in registers by a short jump). This holds for deriving a public key, signing (with the derived or an explicit nonce; the one thing that may show is whether s had to be negated), key agreement and constant-time multiplication of a point by a secret scalar, decoding, tweaking, inverting and clearing a secret key, scalar arithmetic and conditional negation, field arithmetic with its normalisation, inversion and square root, conditional moves, and the unified addition, doubling and rescaling of points. Operations documented as variable-time, and what is done with public values only, are excepted.",
  ["inputs", "configurations"], "all pairs of secret values (keys, nonces, condition flags, intermediate field elements and points) for the same public inputs; all optimisation levels",
  "Tests compare results; two programs that compute the same results but take different time or touch different table entries are the same to them.",
  ["core/src/ecmult.rs", "core/src/field.rs", "core/src/scalar.rs", "core/src/group.rs", "src/lib.rs"],
  [("Field::cmov, FieldStorage::cmov, AffineStorage::cmov", "core/src/field.rs, core/src/group.rs"), ("ecmult_gen: scan of the whole comb window", "core/src/ecmult.rs"), ("ecmult_const: odd_get_ge scans the table", "core/src/ecmult.rs"), ("Scalar::cond_neg_assign, cadd_bit, reduce", "core/src/scalar.rs"), ("add_ge (unified)", "core/src/group.rs")],
  [("Scalar, SecretKey", "secret values in use", "core/src/scalar.rs")], ["sequence of data addresses", "number of instructions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(R))
