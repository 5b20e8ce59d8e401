#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
I = "include/gmlib/"
MODE = [I+"block_cipher_mode/"+f for f in ("block_cipher_mode.h","ecb_mode.h","cbc_mode.h","cfb_mode.h","ofb_mode.h","ctr_mode.h")]

p("C01", "Streamed ECB/CBC/CFB/OFB/CTR equals the standard mode under any chunking",
  "For every block cipher (any block size and any number of blocks it processes at once), key, IV, message and way of splitting the message over update and final calls, each of the modes ECB, CBC, CFB, OFB and CTR outputs exactly the bytes the standard defines for the whole message, in order, and decryption inverts encryption. After each call the reported output length is the number of bytes written so far that the input made available (all complete blocks; the rest at the final call). The same holds when one contiguous buffer is processed in place.",
  ["inputs","histories","configurations"],
  "all sequences of update/final calls (chunk lengths and their order), all message lengths, all IVs including counters about to carry, all block sizes and parallel widths, separate or in-place buffers",
  "The tests encrypt a few fixed vectors, mostly in one call; the outcome depends on the pending-byte state left by every earlier call and on the parallel width, which a handful of vectors does not visit.",
  MODE+[I+"block_cipher_mode/internal/ctr_inc.h"],
  [("pending-block buffer and output count", I+"block_cipher_mode/block_cipher_mode.h update/do_final"),
   ("parallel and remainder loops", "update_blocks of each mode header"),
   ("counter increment", I+"block_cipher_mode/internal/ctr_inc.h")],
  [("buf_, buf_size_","input bytes waiting for a complete block",I+"block_cipher_mode/block_cipher_mode.h"),
   ("iv_ / counter_","chaining value carried between calls","cbc/cfb/ofb/ctr mode headers")],
  ["bytes and length written by update and do_final"])

p("C02", "A re-initialised or reset mode object behaves like a new one",
  "After init or reset, a mode object produces what a freshly constructed object with the same key and IV produces, whatever was done with it before: finished, abandoned or rejected messages, other keys, other IVs. Two objects, or an object and its copy, never influence each other. A message that is not a whole number of blocks makes the final call of ECB and CBC throw and is never silently accepted.",
  ["histories"],
  "all interleavings of init, reset, update, final, copy and destroy on one or several objects up to a depth, including histories with a failed final call",
  "The tests construct a new object per vector; they never reuse one after a partial block, an abandoned message or an exception.",
  MODE+[I+"block_cipher_mode/gcm_mode.h"],
  [("reset of the pending buffer", I+"block_cipher_mode/block_cipher_mode.h reset"),
   ("init/reset of key and IV", "each mode header"),
   ("partial-block rejection", "final_block of ecb_mode.h and cbc_mode.h")],
  [("buf_size_","pending bytes; must be 0 at the start of a message",I+"block_cipher_mode/block_cipher_mode.h")],
  ["output of the next message", "exception from do_final"])

p("C03", "GCM ciphertext and tag follow NIST SP 800-38D for all lengths and chunkings",
  "For every 16-byte block cipher, key, IV of any length, additional data of any length and message of any length, GCM encryption outputs the ciphertext and 16-byte tag of SP 800-38D, however the message is split over calls. The block counter wraps modulo 2^32 without touching the other 96 bits, and lengths above 2^32 bits are encoded correctly in the tag.",
  ["inputs","histories","configurations"],
  "all IV, AAD and message lengths, all chunkings, all initial counter values (including those that wrap mid-message), all GHASH backends and parallel widths",
  "Tests use a few published vectors, none near the 32-bit counter wrap, none with long IV/AAD, and none above 2^32 bits.",
  [I+"block_cipher_mode/gcm_mode.h", I+"block_cipher_mode/internal/gctr_inc.h", I+"ghash/ghash.h"],
  [("initial counter derivation", I+"block_cipher_mode/gcm_mode.h GctrCryptor::init"),
   ("32-bit increment", I+"block_cipher_mode/internal/gctr_inc.h"),
   ("length block and tag", I+"block_cipher_mode/gcm_mode.h final_block")],
  [("counter_, counter0_","next and initial counter block",I+"block_cipher_mode/gcm_mode.h"),
   ("ct_len_, aad_len_","byte counts that go into the tag",I+"block_cipher_mode/gcm_mode.h")],
  ["ciphertext", "get_tag"])

p("C04", "GCM decryption accepts exactly the genuine tag, whatever happened before",
  "A GCM decryptor returns the plaintext and does not throw when key, IV, additional data, ciphertext and tag are those of an encryption; if any bit of any of them differs so that the recomputed tag differs, the final call throws. This verdict depends on those inputs alone: not on how the ciphertext was split, on earlier messages of the same object or of other objects, nor on how many decryptions the process did before.",
  ["inputs","histories"],
  "all single-bit and single-byte changes and truncations/extensions of every field, all chunkings, all histories of up to several earlier genuine, forged or abandoned decryptions on the same and on other objects",
  "Tests decrypt each vector once; forged inputs, repeated decryptions and reuse of an object are not tested (a stale shared buffer survived there).",
  [I+"block_cipher_mode/gcm_mode.h"],
  [("tag recomputation and comparison", I+"block_cipher_mode/gcm_mode.h GcmDecryptor::final_block"),
   ("authentication before decryption of each chunk", I+"block_cipher_mode/gcm_mode.h GcmDecryptor::update_blocks")],
  [("hash_ and tag_","running authentication state and expected tag",I+"block_cipher_mode/gcm_mode.h")],
  ["exception from do_final", "plaintext"])

p("C05", "Streaming hash update is chunking-invariant for every block size",
  "For every hash built on the library's streaming base (any block size), feeding a message in any split gives the digest of the concatenated message, and empty updates change nothing. After reset the object is as new, whatever was fed before. A copied hash object continues independently of its original.",
  ["histories","inputs"],
  "all sequences of update lengths, resets, copies and finals up to a depth, for several block sizes",
  "Tests hash a few messages in one or two calls and with 64-byte blocks; the pending-buffer state and other block sizes are not enumerated.",
  [I+"hash_lib/hash.h", I+"sm3/sm3.h", I+"ghash/ghash.h"],
  [("pending-block buffer", I+"hash_lib/hash.h update"), ("final over pending bytes", I+"hash_lib/hash.h do_final"), ("reset", I+"sm3/sm3.h, "+I+"ghash/ghash.h")],
  [("buf_, buf_size_","bytes waiting for a complete block",I+"hash_lib/hash.h")],
  ["do_final digest"])

p("C06", "SM3 digests follow GB/T 32905 for every message length",
  "SM3 returns the digest GB/T 32905-2016 defines, for every message of any length, in every build configuration. The message length is counted in 64 bits: messages beyond 2^32 bits are padded with the right length.",
  ["inputs","configurations"],
  "all message lengths across padding boundaries, all byte values at all positions of a block, lengths crossing the 32-bit bit counter, both compression backends",
  "Tests use a handful of short messages and one million 'a'; they do not visit every padding residue or the carry of the length counter.",
  ["src/sm3/sm3_common.cpp","src/sm3/sm3_yang15.cpp",I+"sm3/sm3.h"],
  [("compression function","src/sm3/sm3_common.cpp, src/sm3/sm3_yang15.cpp update_blocks"),("padding and length","final_block in the same files")],
  [("digest state and length counter","running value",I+"sm3/internal/*.h")], ["do_final digest"])

p("C07", "HMAC follows RFC 2104 for every hash, key length and call history",
  "HMAC over any hash (block and digest size) with a key of any length, including empty, equals RFC 2104 on the concatenated message however it is split. Setting a key starts a new computation no matter what was done before.",
  ["inputs","histories"],
  "all key lengths around block size, all message lengths and chunkings, hashes with digest shorter and longer than the block, repeated use through set_key",
  "The tests use a few fixed vectors with SM3 and never re-key a used object, nor use a hash with a long digest.",
  [I+"hash_lib/hmac.h"],
  [("key padding or hashing", I+"hash_lib/hmac.h set_key"),("inner and outer hash", I+"hash_lib/hmac.h do_final")],
  [("K_, h_","padded key and inner hash",I+"hash_lib/hmac.h")], ["do_final digest"])

p("C08", "GHASH is polynomial evaluation in GF(2^128), identical in every backend",
  "For every hash key H and every sequence of blocks, GHASH returns the polynomial value of SP 800-38D over GF(2^128), for every backend and any grouping of the blocks into calls. An input that is not a whole number of blocks is rejected at the final call.",
  ["inputs","configurations","histories"],
  "all single-bit and table-index-covering keys and blocks, all groupings, three backends",
  "Tests check some vectors per backend; table entries and carry-less reduction cases are not all exercised.",
  ["src/ghash/ghash_common.cpp","src/ghash/ghash_lut256.cpp","src/ghash/ghash_pclmul.cpp",I+"ghash/ghash.h"],
  [("field multiplication","src/ghash/*.cpp"),("key table construction","src/ghash/ghash_lut256.cpp ghash_init")],
  None, ["do_final digest"])

p("C09", "AES-128/192/256 follow FIPS 197 in every backend, batch size and buffer layout",
  "For every key and every number of blocks, AES encryption and decryption return the FIPS 197 result for each block, in every backend, and decryption inverts encryption. The result does not depend on buffer alignment, on whether output and input are the same buffer, or on earlier keys of the object.",
  ["inputs","configurations","histories"],
  "all table indices and key-schedule positions, all batch sizes up to twice the parallel width, all alignments, in place or not, re-keying",
  "Tests use the FIPS vectors; a wrong table entry, batch remainder or aliasing case need not show.",
  ["src/aes/aes_lut.cpp","src/aes/aes_aesni.cpp",I+"aes/aes.h"],
  [("round functions and tables","src/aes/aes_lut.cpp"),("AES-NI rounds","src/aes/aes_aesni.cpp"),("multi-block entry points",I+"aes/aes.h")],
  None, ["encrypt_block(s)/decrypt_block(s) output"])

p("C10", "SM4 follows GB/T 32907 in every backend, batch size and buffer layout",
  "For every key and every number of blocks, SM4 encryption and decryption return the GB/T 32907-2016 result for each block, in every backend, and decryption inverts encryption. The result does not depend on buffer alignment, on whether output and input are the same buffer, or on earlier keys of the object.",
  ["inputs","configurations","histories"],
  "all table indices and key-schedule positions, all batch sizes up to twice the widest path, all alignments, in place or not, re-keying",
  "Tests use a few vectors; each of the 1/4/8/16-block code paths and each table entry is not visited.",
  ["src/sm4/sm4_common.cpp","src/sm4/sm4_lang18.cpp",I+"sm4/sm4.h"],
  [("scalar rounds","src/sm4/sm4_common.cpp"),("x4/x8/x16 rounds","src/sm4/sm4_lang18.cpp")],
  None, ["encrypt_block(s)/decrypt_block(s) output"])

p("C11", "256-bit and multi-limb integer arithmetic is exact with correct carries",
  "Addition, subtraction, doubling, tripling, multiplication, squaring, single-word operations, modular reduction, comparison, bit tests and byte conversion of 256-bit and multi-limb integers return the mathematically exact result and carry or borrow, in both arithmetic backends, also when output and input are the same object.",
  ["inputs","configurations"],
  "all operand pairs over a limb alphabet that forces every carry/borrow propagation pattern, all divisors and data lengths of a bounded family, both backends, aliased or not",
  "Random or fixed operands hit a long carry chain with probability 2^-32 or less.",
  ["src/number/uint256_common.cpp","src/number/uint256_x64.cpp","src/number/mpz_common.cpp","src/number/mpz_x64.cpp"],
  [("carry chains","src/number/uint256_*.cpp, src/number/mpz_*.cpp"),("long division","uint256_mod, uint256_div_* in src/number")],
  None, ["return value and output limbs"])

p("C12", "Modular (Montgomery) arithmetic returns the exact canonical residue",
  "For the prime moduli of the supported curves, modular addition, subtraction, negation, doubling, tripling, halving, multiplication, squaring, exponentiation, inversion and conversion from and to bytes return the exact result as the unique residue below the modulus, in both backends. Zero, one and modulus-minus-one behave like every other element, and outputs may alias inputs.",
  ["inputs","configurations"],
  "all operand pairs from a family of edge residues (limb patterns, powers of two, values next to the modulus), all four moduli, both backends",
  "The final conditional subtraction and long carry chains happen for a vanishing share of random operands; tests use few.",
  ["src/number/mont256_common.cpp","src/number/mont256_x64.cpp",I+"number/mont256.h"],
  [("Montgomery reduction","mont256_redc / mont256_mul in src/number/mont256_*.cpp"),("windowed power","mont256_pow")],
  None, ["residues converted to bytes"])

p("C13", "SM2 scalar multiplication is the group law for every scalar and point",
  "On the SM2 curve, point addition, doubling, negation and scalar multiplication return the mathematically correct point for every scalar and every curve point, including zero, one, the group order and its neighbours, equal points, opposite points and scalars above the order. Public keys, signatures and ciphertext points computed from them are therefore exact.",
  ["inputs","configurations"],
  "all scalars in windows around 0, n, 2^i, n/2, n/3, runs of bits, and all base points in a family; all pairs of points from a small walk, in both arithmetic backends",
  "Tests multiply by one or two random-looking scalars; exceptional cases of the addition formulas and of the recoding occur only for special scalars.",
  ["src/sm2/sm2p256v1.cpp"],
  [("add-sub recoding and loop","src/sm2/sm2p256v1.cpp sm2_ec_j_mul_a"),("addition formulas and exceptional cases","sm2_ec_j_add, sm2_ec_j_add_a, sm2_ec_j_dbl")],
  None, ["affine coordinates of results"])

p("C14", "SM2 keys are always valid, whatever the random generator returns",
  "Key import accepts exactly the private keys 1..n-2 and the public keys whose coordinates are field elements on the curve, and throws otherwise; a refused import leaves the object as it was. Key generation produces a private key in that range, with the matching public key, for every output of the random generator, and every generated or imported key can sign and decrypt.",
  ["inputs","fault_sequences"],
  "all private keys and random words next to 0, n-3..n+3 and 2^256-1 and every bit position; all coordinates next to 0 and p and off-curve neighbours",
  "Tests use one random generator and a few keys; boundary outputs have probability 2^-256 there.",
  [I+"sm2/sm2.h","src/sm2/sm2p256v1.cpp"],
  [("range check",I+"sm2/sm2.h set_priv, set_pub"),("reduction of random bytes",I+"sm2/sm2.h gen_priv")],
  None, ["exception, get_priv, get_pub"])

p("C15", "SM2 signing follows GB/T 32918.2 under every sequence of random numbers",
  "For every key, identity, message and sequence of random-generator outputs, signing returns the pair GB/T 32918.2 defines for the first acceptable random number, skipping exactly those the standard rejects, and both halves lie in 1..n-1. An identity that is too long is refused by an exception.",
  ["fault_sequences","inputs"],
  "all sequences of random outputs up to a depth over an alphabet that includes values the standard rejects, all hash values that force each rejection rule, all identity lengths at the limits",
  "The rejection rules trigger with probability 2^-256, so no test reaches a retry.",
  [I+"sm2/sm2.h",I+"sm2/internal/sm2_alg.h"],
  [("retry loop",I+"sm2/sm2.h sign_"),("identity hash",I+"sm2/internal/sm2_alg.h sm2_compute_z")],
  None, ["signature bytes", "number of random-generator calls"])

p("C16", "SM2 verification accepts exactly the valid signatures and never crashes",
  "Verification returns true if and only if r and s lie in 1..n-1, r+s is not 0 modulo n, the computed point is not at infinity and the GB/T 32918.2 equation holds, for every signature, key, identity and message. It never throws or terminates the process, also for out-of-range values and over-long identities.",
  ["inputs"],
  "all signatures with r, s from an edge set (0, 1, n-1, n, n+1, 2^256-1, complements) and all bit flips of genuine ones, hash values that make forged equations hold at the edges, all identity lengths at the limits",
  "Tests verify genuine signatures and a few corruptions; range and infinity edges need crafted hash values.",
  [I+"sm2/sm2.h"],
  [("range checks, t=0 check, infinity check, final comparison",I+"sm2/sm2.h verify_")],
  None, ["return value of verify"])

p("C17", "SM2 encryption round-trips and decryption rejects altered ciphertexts",
  "For every key, plaintext length, point format and random sequence, encryption produces the GB/T 32918.4 ciphertext for the first random number whose key stream is not all zero, of exactly the announced length, and decryption returns the plaintext. Decryption throws for every ciphertext whose point, hash or data was altered, truncated or extended, and never reads outside the given ciphertext.",
  ["inputs","fault_sequences"],
  "all plaintext lengths through several key-stream blocks and past 255 blocks, three point formats, random sequences with forced all-zero key streams, all single-byte changes and truncations",
  "Tests encrypt a few short messages; forced retries and systematic tampering are not reachable with a real hash and generator.",
  [I+"sm2/sm2.h",I+"sm2/internal/sm2_alg.h"],
  [("key derivation and xor",I+"sm2/internal/sm2_alg.h sm2_kdf_xor"),("retry and C1||C3||C2 layout",I+"sm2/sm2.h encrypt_, decrypt_")],
  None, ["ciphertext, plaintext, exceptions"])

p("C18", "SM2 point encodings are canonical, exact and bounds-safe",
  "Decoding accepts exactly the compressed, uncompressed and hybrid encodings of curve points with coordinates below the field prime, matching parity and sufficient length, and yields the encoded point; encoding then decoding is the identity in all three formats. No other byte string is accepted, and nothing beyond the given length is read.",
  ["inputs"],
  "all first bytes, all lengths up to past the longest format, coordinates at 0, p-1, p, p+1 and 2^256-1, x with and without a square root, both parities",
  "Tests decode their own encodings; non-canonical or truncated encodings are not tried.",
  ["src/sm2/sm2p256v1.cpp"],
  [("format dispatch and length check","src/sm2/sm2p256v1.cpp sm2_ec_a_from_bytes"),("square root","sm2_ec_recover_y, sm2_fp_sqrt")],
  None, ["decoded point, error code; decryption of ciphertexts carrying the point"])

p("C19", "ASN.1 decoding is total, in bounds and exact on every byte string",
  "Each ASN.1 decoder, given any byte string, returns an error or a value that lies completely inside that string and equals what the encoding denotes (tag class, form, number, length, content, integer and bit-string value), and reports the exact number of bytes consumed. Valid definite-length encodings of the requested universal type are accepted, all others rejected, and no byte outside the input is read.",
  ["inputs"],
  "all byte strings up to a length over the full byte alphabet and longer ones over a structural alphabet, all length forms of up to nine octets, all truncations",
  "The tests decode a few well-formed structures; malformed, truncated and long-form inputs are the point of the property.",
  ["src/asn1/asn1.cpp","src/asn1/asn1_dump.cpp",I+"asn1/asn1.h"],
  [("identifier and length parsing, bounds check","src/asn1/asn1.cpp asn1_decode_tlv"),("per-type checks","asn1_decode_*_value in src/asn1/asn1.cpp")],
  None, ["return code, pointer, lengths"])

p("C20", "ASN.1 encoding is valid DER, of the announced length, and decodes back",
  "For every value, encoding a boolean, integer, bit string, octet string, sequence or set header writes minimal-length DER, exactly as many bytes as the matching length function announced and never more than the matching maximum, and decoding returns the same value. Integers are non-negative and minimal whatever leading zeros the input has.",
  ["inputs"],
  "all contents up to a small length, all lengths across the 127/128, 255/256, 65535/65536 and 2^24 boundaries, all leading-byte patterns of integers",
  "Tests encode a few values; top-bit integers and each length-octet boundary are not visited.",
  ["src/asn1/asn1.cpp",I+"asn1/asn1.h"],
  [("length octets","src/asn1/asn1.cpp asn1_encode_length_octets"),("integer content","asn1_encode_integer_tlv"),("announced lengths","asn1_encode_*_outl, ASN1_ENCODE_*_MAX_OUTL")],
  None, ["bytes written, reported lengths"])

p("C21", "SM2 keys, signatures and ciphertexts survive their ASN.1 encoding",
  "Encoding an SM2 private key, public key, signature or ciphertext yields the DER structure of GM/T 0009 with the announced length, and decoding it returns the same components for every component value. Decoding any other byte string either fails or returns components inside the input.",
  ["inputs"],
  "all component values by leading-byte pattern, all ciphertext lengths across length-octet boundaries, all single-byte changes and truncations of valid encodings",
  "Tests encode one example; values with leading zero or set top bit occur in a small share of keys and are not tried.",
  ["src/sm2/sm2p256v1_asn1.cpp",I+"sm2/internal/sm2_asn1.h"],
  [("structure encoders and decoders","src/sm2/sm2p256v1_asn1.cpp")],
  None, ["bytes, components, error code"])

p("C22", "SM9 extension fields and both curve groups obey exact arithmetic",
  "Arithmetic in the SM9 prime field, its extensions of degree 2, 4 and 12, and both curve groups returns the exact mathematical result for all operands, including zero, one, sparse elements, equal and opposite points and every scalar. Encoding then decoding an element or point is the identity, and point decoding accepts only points on the curve within the given length.",
  ["inputs","configurations"],
  "all pairs of elements with coefficients from an edge alphabet, all scalars in windows around special values, all pairs from a walk of points, both backends",
  "Tests check a few random products; sparse operands, exceptional point pairs and special scalars are not covered.",
  ["src/sm9/sm9_field.cpp",I+"sm9/internal/sm9_field.h"],
  [("tower multiplication, squaring, inversion","src/sm9/sm9_field.cpp sm9_fp2_*, sm9_fp4_*, sm9_fp12_*"),("point formulas and scalar loops","sm9_ec_j_*, sm9_ec2_j_*")],
  None, ["bytes of results"])

p("C23", "The SM9 pairing is the R-ate pairing: bilinear and non-degenerate",
  "For all points P and Q and all scalars a and b, the pairing of [a]P and [b]Q is the pairing of P and Q raised to ab; the pairing of the generators is not one and has the group order. Its value is the R-ate pairing of GB/T 38635, and the fixed-generator variants agree with the general one.",
  ["inputs","configurations"],
  "all scalar pairs in a grid including 1, 2, n-1 and large values, compared with an independent evaluation of the defining formula, both backends",
  "Tests evaluate the pairing at the standard's one or two points.",
  ["src/sm9/sm9_field.cpp"],
  [("Miller loop, line functions","src/sm9/sm9_field.cpp sm9_pairing, sm9_pairing_g_*"),("Frobenius maps and final exponentiation","sm9_fp12_frobenius*, sm9_pairing_final_exp")],
  None, ["384-byte pairing value"])

p("C24", "SM9 master and user signing keys are valid for all inputs and random values",
  "Master-key import accepts exactly 1..N-1, generation yields such a key with the matching public key for every random-generator output, and public-key and user-key import accept exactly points on their curves with canonical coordinates and otherwise throw and leave the object as it was. The user key of an identity is the one GB/T 38635.2 defines for every identity and identifier byte, extraction throws when the standard requires the master key to be replaced, and exported keys import to keys that behave identically.",
  ["inputs","fault_sequences"],
  "all master keys and random words next to 0, N-2..N+2 and 2^256-1, identities of many lengths, hash values forcing the undefined case, off-curve neighbours of public points",
  "Tests use the standard's example key and identity only.",
  [I+"sm9/sm9.h",I+"sm9/internal/sm9_alg.h"],
  [("range checks and reduction",I+"sm9/sm9.h set_priv, gen_priv, set_pub"),("user key extraction",I+"sm9/sm9.h gen_SignPrivateKey"),("hash to range",I+"sm9/internal/sm9_alg.h sm9_Hn")],
  None, ["exported key bytes, exceptions"])

p("C25", "SM9 signatures follow GB/T 38635.2; verification accepts exactly valid ones",
  "For every identity, message, point format and random sequence, signing returns the signature GB/T 38635.2 defines for the first acceptable random number, and verification accepts it. Verification returns false, without throwing or reading outside the input, for every other byte string: wrong length, h outside 1..N-1, a point not on the curve or not canonically encoded, altered signature, message, identity or identifier byte.",
  ["inputs","fault_sequences"],
  "all signature lengths up to past the maximum, all single-byte changes, h at 0, N-1, N and 2^256-1, hash values forcing the retry and the exceptional point addition, three point formats",
  "Tests sign and verify one example; retries, short signatures and h=0 are not reached.",
  [I+"sm9/sm9.h","src/sm9/sm9_field.cpp"],
  [("sign retry loop",I+"sm9/sm9.h SM9SignPrivateKey::sign"),("verification steps",I+"sm9/sm9.h SM9SignMasterPublicKey::verify"),("point decoding","src/sm9/sm9_field.cpp sm9_ec_a_from_bytes")],
  None, ["signature bytes, return value"])

p("C26", "Random generators fill exactly the request and fail loudly on hardware faults",
  "Each random generator writes exactly the requested number of bytes, for every length including zero. A hardware generator retries each word up to its configured number of times, returns only bytes the hardware delivered successfully and in order, and throws once the retries of a word are exhausted, under every pattern of hardware failures. A generator backed by an operating-system service hands out only bytes the service reported as delivered, covers requests larger than one service call completely, and throws when the service cannot be acquired or fails.",
  ["fault_sequences","inputs"],
  "all success/failure patterns of the hardware instruction up to a bounded length, all request lengths across word boundaries, several retry limits, 32- and 64-bit variants",
  "Real hardware practically never fails, so no test sees the retry or exhaustion path.",
  [I+"rng/hardware_rng/rdrand32_rng.h",I+"rng/hardware_rng/rdrand64_rng.h",I+"rng/hardware_rng/rdseed32_rng.h",I+"rng/hardware_rng/rdseed64_rng.h",I+"rng/std_rng.h",I+"rng/cstd_rng.h",I+"rng/os_rng/bcrypt_rng.h",I+"rng/os_rng/wincrypt_rng.h"],
  [("retry loop and tail copy",I+"rng/hardware_rng/*.h"),("splitting of large requests and status checks",I+"rng/os_rng/*.h")],
  None, ["bytes written, exception, number of hardware requests"])

p("C27", "Memory xor and byte-order helpers are exact at every size and alignment",
  "XOR of two buffers writes exactly the requested bytes with the right values for every size, alignment and exact aliasing of output with an input, in fixed-size and variable-size form, and touches no other byte. Byte-order loads and stores of 8, 16, 32 and 64 bits are exact inverses with the documented byte order for every value and alignment.",
  ["inputs","configurations"],
  "all sizes up to several vector widths plus boundaries above, all alignments, all aliasings, three instruction-set configurations",
  "Tests check a few sizes; each remainder path of each vector width is not visited.",
  [I+"memory_utils/memxor.h","src/memory_utils/memxor.cpp",I+"memory_utils/endian.h"],
  [("width-descending loops","src/memory_utils/memxor.cpp"),("fixed-size dispatch",I+"memory_utils/memxor.h"),("loads and stores",I+"memory_utils/endian.h")],
  None, ["bytes of output and surroundings"])

p("C28", "Independent objects may be used from several threads without interference",
  "When several threads use distinct objects (ciphers, modes, hashes, keys) at the same time, or use one constant key object concurrently, every thread gets the result it would get alone, under every interleaving. No library call writes shared mutable state.",
  ["schedules"],
  "all interleavings of two or three threads' calls up to a preemption bound, at the granularity of the operations the library performs on shared or static data",
  "No test starts a second thread; sequential tests cannot see a shared scratch buffer.",
  [I+"block_cipher_mode/gcm_mode.h",I+"sm2/sm2.h",I+"sm9/sm9.h","src/sm2/sm2p256v1.cpp","src/sm9/sm9_field.cpp"],
  [("absence of mutable statics","all headers and sources"),("const-qualified key operations",I+"sm2/sm2.h, "+I+"sm9/sm9.h")],
  None, ["outputs per thread", "writes to static storage"])

p("C29", "No operation reads or writes outside the buffers it was given",
  "Every public operation reads only the input ranges and writes only the output ranges its interface describes, for all lengths, including empty input, whatever the history of the object and whether it succeeds or fails.",
  ["inputs","histories"],
  "all operations on exactly-sized buffers placed against inaccessible memory on either side, all lengths across block and vector boundaries, all outcomes",
  "Tests use roomy buffers, so an access past the end goes unnoticed.",
  [I+"block_cipher_mode/block_cipher_mode.h",I+"hash_lib/hash.h","src/sm4/sm4_lang18.cpp","src/aes/aes_aesni.cpp","src/asn1/asn1.cpp",I+"sm2/sm2.h",I+"sm9/sm9.h"],
  [("length arithmetic of every buffer access","all headers and sources")],
  None, ["memory faults, bytes next to the output"])

p("C30", "All build configurations compute the same results",
  "Every operation returns the same output, error or exception in every build configuration of the library (plain, table-driven, and with each set of CPU features), for every input.",
  ["configurations","inputs"],
  "every pair of configurations, over an enumerated transcript of operations from all modules",
  "The tests of each configuration check their own vectors; they never compare configurations on the same inputs.",
  ["src/number","src/sm4","src/sm3","src/aes","src/ghash","src/memory_utils"],
  [("compile-time backend selection","headers with CPU_FLAG_* and SUPPORT_* conditions")],
  None, ["transcript of outputs"])

p("C31", "Memory and ASN.1 dumps show exactly the bytes they were given",
  "memdump prints the prefix, then every byte once and in order in the given item format and followed by the separator, at most the given number per line, lines ended by a newline except the last, the last line padded so that columns line up, each line followed if asked by three spaces and its bytes as characters with a point for each unprintable one, and then the end string; strings are printed as they are. asn1_dump prints, for every element of a well-formed encoding nested up to 64 levels, in order and indented by its depth, its header octets, the name of its tag number, its length, class and form, and the content octets of primitive elements, and succeeds.",
  ["inputs"],
  "all sizes across several lines with all line lengths, all argument combinations, all byte values at all columns, all tag octets, length forms and tree shapes",
  "The tests call the dumps once and do not look at what is printed.",
  ["src/memory_utils/memdump.cpp",I+"memory_utils/memdump.h","src/asn1/asn1_dump.cpp",I+"asn1/asn1_dump.h"],
  [("full and last lines","src/memory_utils/memdump.cpp memdump"),("element loop and recursion","src/asn1/asn1_dump.cpp r_asn1_dump"),("names","src/asn1/asn1.cpp asn1_tag_*_name")],
  None, ["characters on standard output, return code"])

p("C32", "Results depend on no address, moment of use or other object",
  "The outputs, return values and exceptions of any sequence of library calls are a function of the contents of its arguments and of the state of the objects it uses. They are the same for every address and alignment of the buffers and of the objects (the alignment of the type being respected), for objects built in memory of any previous content, copied, assigned or moved to another place, whether the calls run before main (from a constructor of a static object), in main, or after main (from a destructor), after any other calls on other objects, and interleaved with them in one thread.",
  ["inputs","histories"],
  "all placements of a family, all ordered pairs of scripts and variants, all switch points of two scripts",
  "The tests call each function from main with buffers wherever the compiler puts them and never look at another object's influence.",
  sorted(f for d in ("src","include") for r,_,fs in os.walk("/repo/"+d) for f in [os.path.relpath(os.path.join(r,x),"/repo") for x in fs] if f.endswith((".h",".cpp"))),
  [("static tables and cached values","src/sm9/sm9_field.cpp, src/sm2/sm2p256v1.cpp, src/aes, src/sm4"),("vector loads and stores","include/gmlib/memory_utils, src/ghash, src/sm4, src/aes"),("objects holding keys and partial blocks","include/gmlib")],
  None, ["outputs, return values, exceptions"])

p("C33", "A failing random generator or hash stops the operation and leaves nothing behind",
  "When the random generator or the hash given by the user throws during key generation, signing, encryption or decryption, at any draw or digest, also after rejected numbers, whatever the generator has written and whatever is thrown, that same exception reaches the caller, and the generator is not asked again. Key objects hold and do what they held and did before the call, an object whose constructor failed does not exist, the output buffers hold no valid signature or ciphertext of the failed call, and later calls give what they would give had the failed one never been made.",
  ["inputs","histories","fault_sequences"],
  "all points of failure of every operation that uses a generator or hash, all histories of failing and succeeding calls up to a depth",
  "The tests never use a generator or hash that fails.",
  [I+"sm2/sm2.h",I+"sm2/internal/sm2_alg.h",I+"sm9/sm9.h",I+"sm9/internal/sm9_alg.h",I+"rng/rng.h"],
  [("key generation",I+"sm2/sm2.h gen_priv, "+I+"sm9/sm9.h gen_priv"),("signing",I+"sm2/sm2.h sign_, "+I+"sm9/sm9.h sign"),("encryption",I+"sm2/sm2.h encrypt_, decrypt_")],
  None, ["exceptions, key objects, outputs of later calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
