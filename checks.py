"""What each check builds, runs and claims."""
PORT = ["-DSUPPORT_SM3_YANG15", "-DSUPPORT_SM4_LANG18"]
SIMD = PORT + ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AVX2", "-DCPU_FLAG_AES", "-DCPU_FLAG_MOVBE", "-DCPU_FLAG_BMI2",
               "-DCPU_FLAG_RDSEED", "-DCPU_FLAG_RDRAND", "-DCPU_FLAG_PCLMUL",
               "-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]
SSE = PORT + ["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AES", "-DCPU_FLAG_PCLMUL", "-msse2", "-mssse3", "-maes", "-mpclmul"]
CONFIGS = {"plain": dict(flags=[]), "sse": dict(flags=SSE), "portable": dict(flags=PORT), "simd": dict(flags=SIMD)}

CONFIGS.update({"avx-only": dict(flags=["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AVX2", "-msse2", "-mavx2"]), "num-only": dict(flags=["-DCPU_FLAG_MOVBE", "-DCPU_FLAG_BMI2", "-mmovbe", "-mbmi2"]),
                "aes-only": dict(flags=["-DCPU_FLAG_SSE2", "-DCPU_FLAG_AES", "-msse2", "-maes"]), "sm4-lut": dict(flags=["-DSUPPORT_SM4_LANG18"]), "sm3-lut": dict(flags=["-DSUPPORT_SM3_YANG15"])})
TSAN = ["-fsanitize=thread", "-g1"]
ASAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-g1"]
MEM = ["memory_utils/*.cpp"]
BLK = MEM + ["aes/*.cpp", "sm4/*.cpp"]
GCM = BLK + ["ghash/*.cpp"]
NUM = MEM + ["number/*.cpp"]
SM2 = NUM + ["sm2/*.cpp", "sm3/*.cpp", "asn1/*.cpp"]
SM9 = NUM + ["sm9/*.cpp", "sm3/*.cpp"]

def U(harness, cfg, src, **kw): return dict(harness=harness, cfg=cfg, src=src, **kw)
CHECKS = {}
def check(id, level, technique, note, units, **kw):
    CHECKS[id] = dict(level=level, technique=technique, note=note, units=units, **kw)

check("C01", "model_checking", "stateless exhaustive exploration of call sequences on the real mode objects against a whole-message reference",
      "Every chunking in the stated families is executed on the real code; block-cipher internals are abstracted by small keyed permutations (and the real ciphers in part), which is sound because the modes only use the cipher through its interface. Data values outside the filler pattern are not enumerated.",
      [U("c01.cpp", "simd", BLK, hopt=["-O2"], args=["--mem", "20000"]), U("c01.cpp", "plain", BLK, hopt=["-O2"], args=["--mem", "20000"])],
      bounds="all compositions of messages up to 14 bytes (thorough 18) for 9 (block size, width) pairs; all 3-chunk splits around block boundaries of messages up to 2*width+1 blocks for 12 ciphers; all CTR carry depths; single calls of 2^k octets and neighbours, k=8..32, between shorter ones, for 5 block sizes and widths; one message of more than 2^16 calls (thorough 140000) and more than 2^16 messages on one object")
check("C02", "model_checking", "stateless exhaustive exploration of call histories on one and two real mode objects against a model of the current message",
      "Every history of the stated operations up to the stated depth is executed on the real objects (branches continue from copies of the object). Operations the interface leaves undefined (update after final without init/reset) are not issued.",
      [U("c02.cpp", "simd", GCM, hopt=["-O2"], args=["--mem", "40000"]), U("c02.cpp", "plain", GCM, hopt=["-O2"], args=["--mem", "40000"])],
      bounds="one object: all histories of 4-6 operations (thorough 5-6) over 11-13 operations; two objects: all interleaved histories of 4-5 operations; 5 ciphers x 8 mode directions plus 3 ciphers x GCM encrypt/decrypt; sessions of one call of 2^k octets and neighbours, k=8..32, finished or abandoned, before the next message; messages on one object whose key or IV differs from the earlier message's in one octet, in either order; more than 2^16 messages on one object")
NOT_CLAIMED = {}
check("C03", "model_checking", "stateless exhaustive exploration of GCM call sequences against an independent SP 800-38D model, with solved IVs and closed-form long messages",
      "All shapes and chunkings in the stated families are executed on the real code for 8 ciphers; initial counters near the 32-bit wrap are reached by solving the IV in GF(2^128); lengths above 2^32 bits use a constant permutation whose tag has a closed form. Data values outside the filler are not enumerated (C08 covers GHASH values).",
      [U("c03.cpp", "simd", GCM, hopt=["-O2"], args=["--mem", "40000"]), U("c03.cpp", "plain", GCM, hopt=["-O2"], args=["--mem", "40000"])],
      bounds="IV 1..70 x AAD 0..34; AAD 0..50 x message 0..50; every message length up to 2*width+1 blocks; all 3-chunk splits near block boundaries; counter wraps at every distance up to 2*width+4 blocks; IV, AAD and message of 2^29+k and (fast backend; thorough: both) 2^32+k bytes; single calls of 2^k octets and neighbours, k=8..32 (portable GHASH 29); pairs of messages on one object whose IV or AAD differ in one octet or by being cut or extended; more than 2^16 calls in one message and messages on one object")
check("C04", "model_checking", "exhaustive enumeration of tampering and of decryptor session histories and interleavings on the real objects",
      "Every listed alteration must be rejected and every genuine message accepted, whatever sessions came before or run interleaved on another object. Multi-bit forgeries outside the enumerated families are not tried; a collision of the 128-bit tag would be a false alarm but no enumerated case has one (checked on the unchanged tree).",
      [U("c04.cpp", "simd", GCM, hopt=["-O2"], args=["--mem", "40000"]), U("c04.cpp", "plain", GCM, hopt=["-O2"], args=["--mem", "40000"])],
      bounds="8 message shapes x 3 call shapes x 6 ciphers: all 1- and 2-bit tag changes, all tag byte values, prefix/suffix deltas, every bit of ct/AAD/IV, all cuts, extensions to 33 bytes; all sequences of 3-4 sessions of 6 kinds over two objects; all 252 interleavings of two decryptions; messages and additional data of 2^k octets and more, k=8..32 (portable GHASH 29): genuine, altered tags and octets, lengths that agree modulo powers of two; more than 2^16 sessions on one object")
SM3S = MEM + ["sm3/*.cpp"]
check("C05", "model_checking", "stateless exhaustive exploration of update/final/reset histories and chunkings against whole-message references",
      "Every chunking and history in the stated families is executed on the real Hash base class with toy hashes of 12 block sizes, SM3 and GHASH.",
      [U("c05.cpp", "simd", SM3S + ["ghash/*.cpp"]), U("c05.cpp", "plain", SM3S + ["ghash/*.cpp"])],
      bounds="all compositions of messages up to 14-17 bytes (thorough 17-20) for 8 block sizes; all 1- and 2-chunk splits up to 4 blocks and 3-chunk splits near boundaries for 14 hashes; all histories of 6 operations (thorough 7); single calls of 2^k and its neighbours, k=8..32, for 7 block sizes, as update, last part and after short parts; more than 2^16 calls and messages on one object")
check("C06", "exploration", "exhaustive enumeration of message lengths, byte values and length-counter states against an independent SM3",
      "All listed messages are hashed by the real code in both backends and compared with an independent implementation of GB/T 32905; the compression function's 2^768 inputs are only covered along the listed families.",
      [U("c06.cpp", "portable", SM3S), U("c06.cpp", "plain", SM3S)],
      rule="a case is one message (or counter start value) hashed by library and reference; distinct cases are distinct messages/counter states",
      bounds="all lengths 0..1100 (thorough 4400) x 4 patterns; every byte position x value in 4 message sizes; all lengths 2^29-192..2^29+272; one call of up to 2^29 bytes (thorough 2^32); counter starts 2^k+-512 for k=9..63")
check("C07", "model_checking", "stateless exhaustive exploration of HMAC call histories and key/message lengths against RFC 2104",
      "Every key length up to two blocks, message length up to two blocks, chunking family and call history is executed on the real template with toy hashes and SM3; digests longer than the block are outside RFC 2104 and not judged.",
      [U("c07.cpp", "simd", SM3S), U("c07.cpp", "plain", SM3S)],
      bounds="key 0..2B+6 x message 0..2B+3 for 11 hashes; all histories of 5-6 calls; keys and messages of 2^k and its neighbours, k=8..32, for 4 block sizes; an object keyed again with a key that differs in one octet, is cut, extended or is the hash of the earlier one; more than 2^16 calls and messages on one object")
check("C08", "exploration", "exhaustive enumeration of hash keys, blocks, block groupings and object histories against bitwise GF(2^128) arithmetic",
      "Multiplication is bilinear, so the byte basis on either side crossed with the bit basis on the other exercises every table entry and every reduction of each backend; products of two dense operands are only covered along the listed families.",
      [U("c08.cpp", "simd", MEM + ["ghash/*.cpp"]), U("c08.cpp", "plain", MEM + ["ghash/*.cpp"])],
      rule="a case is one (key, block sequence, grouping) or one history hashed by the library and by the reference; distinct cases are distinct (key, blocks, grouping) tuples and model states",
      bounds="16x256 key bytes x 128 block bits and 128 key bits x 16x256 block bytes, all single-byte sweeps of dense operands, two-bit pairs, every grouping of up to 11 blocks (thorough 13), chains up to 300 blocks, 1296 word patterns of key and block, of the running state and of related keys, alignments 0..15, all histories of 6 operations (thorough 8) over 10 operations, for the class and the portable backends; more than 2^16 calls and messages on one object")
blk_note = "Each table lookup of each round (and of each slot of the widest batch) is driven through all 256 inputs, so a wrong table entry, constant, round or lane is exercised; the remaining input space (2^128 blocks per key) is covered only along the listed families."
blk_bounds = "all key bytes x 256 values x 3 bases, all block bytes x 256 values x 9 contexts, chains until every S-box input has occurred in every round, byte position and batch slot (encryption, decryption, key schedule), 0..40 blocks x 16 x 16 alignments and in place on guarded buffers, all two-object histories of 4 operations (thorough 6); every window of the key schedule and the state before every round in all 4-word patterns over 6 words (6- and 8-word windows over 4 and 3) and 1/5-1/7 (thorough all) of the two-valued octet masks; re-keying with keys that differ in one or two octets, exchanged, rotated, reversed or complemented runs; single calls of 47 to 65537 blocks and of 2^k blocks and neighbours, k=16..28"
blk_rule = "a case is one (key, blocks, entry point, layout) compared with the reference; distinct cases are distinct (key, block, layout) tuples"
check("C09", "exploration", "exhaustive enumeration of key/block bytes, S-box activations, batch sizes, buffer layouts and rekeying histories against an independent FIPS 197", blk_note,
      [U("c09.cpp", "simd", ["aes/*.cpp"], args=["--mem", "20000"]), U("c09.cpp", "plain", ["aes/*.cpp"], args=["--mem", "20000"]), U("c09.cpp", "sse", ["aes/*.cpp"], args=["--mem", "20000"])], bounds=blk_bounds, rule=blk_rule)
check("C10", "exploration", "exhaustive enumeration of key/block bytes, S-box activations, batch sizes, buffer layouts and rekeying histories against an independent GB/T 32907", blk_note,
      [U("c10.cpp", "simd", ["sm4/*.cpp"], args=["--mem", "20000"]), U("c10.cpp", "plain", ["sm4/*.cpp"], args=["--mem", "20000"]), U("c10.cpp", "portable", ["sm4/*.cpp"], args=["--mem", "20000"])], bounds=blk_bounds, rule=blk_rule)
check("C26", "model_checking", "stateless exhaustive exploration of hardware failure sequences (scripted RDRAND/RDSEED and scripted operating-system services) on the real generators",
      "The intrinsics are replaced by a scripted device at compile time (all other intrinsics are real); every failure pattern in the stated families is executed. A failing read is assumed to leave an arbitrary value in its destination. The operating-system generators are compiled against stand-ins for the Windows headers that implement the documented interface; the real services are not exercised.",
      [U("c26.cpp", "simd", [], inc_first=["shim/rng"], link=["-Wl,--wrap=rand"], hopt=["-O1"]), U("c26w.cpp", "plain", [], inc_first=["shim/win"], hopt=["-O1"], args=["--mem", "40000"])],
      bounds="0..40 bytes x every failure count per word 0..retries+1 and for ever (full product up to 20000 patterns, otherwise all patterns with two faulty words) for retries 0,1,2,3,10 and 4 generators; all histories of 3 requests; lengths to 700; every failing draw of the software device; operating-system services: every pattern of success, failure and refusal over the calls of requests of 0..40 bytes and of lengths around 2^32-1 and its multiples, acquisition failures, handle release; more than 2^16 draws from one generator")
check("C27", "exploration", "exhaustive enumeration of sizes, alignments, aliasings and values against byte-wise definitions",
      "XOR acts on bits independently and the helpers are byte permutations, so sizes x alignments x aliasing with dense fillers plus all byte-value pairs per lane cover their behaviour; sizes above the bound repeat the widest step.",
      [U("c27.cpp", "simd", ["memory_utils/memxor.cpp"], args=["--mem", "20000"]), U("c27.cpp", "sse", ["memory_utils/memxor.cpp"], args=["--mem", "20000"]), U("c27.cpp", "plain", ["memory_utils/memxor.cpp"], args=["--mem", "20000"])],
      rule="a case is one call (size, alignment, aliasing, data); distinct cases are distinct (form, size, alignments) or (value, offset) tuples",
      bounds="memxor_n sizes 0..1599 (thorough 4699) and memxor<0..579 and 8 larger> x 6 aliasings on guarded pages, alignments (all 32^3 up to 69 bytes), all byte pairs per lane; loads/stores: all 16-bit values, all byte pairs of 32/64-bit values x 16 offsets; one call of 2^31+61 and one of 2^32+4099 bytes")
check("C11", "exploration", "exhaustive enumeration of operand pairs over limb alphabets, edge values, aliasings and lengths against schoolbook arithmetic",
      "Carry and borrow propagation depends on each limb pair only through generate/propagate/kill, so products of limb alphabets that contain all three, for every limb position, force every propagation pattern; limb products are only covered along the listed values. uint256_mod is judged for divisors of at least 251 bits (its contract: repeated subtraction).",
      [U("c11.cpp", "simd", ["number/*.cpp"]), U("c11.cpp", "plain", ["number/*.cpp"])],
      rule="a case is one operation on one operand tuple compared with the reference; distinct cases are distinct operand rows (first operand x family), (data, divisor) pairs and limb-pattern rows",
      bounds="all pairs of 7^4 64-bit-limb patterns, of 3^8 32-bit-limb patterns, of ~1400 edge values; 13 divisors x all data lengths 0..160; multi-limb: all pairs of {0,1,max}^n for n<=6 (thorough 7), 5-letter patterns for n<=4, every length to 48 limbs, closed-form operands to 131074 limbs; all aliasings")
check("C12", "exploration", "exhaustive enumeration of edge residue pairs, exponents, lengths and aliasings for the four curve moduli against plain modular arithmetic",
      "Values are chosen both by value and by internal (Montgomery) form, so that limb patterns hit the reduction and final-subtraction steps of each backend; dense-by-dense products are covered only along the listed values. 0^0 is not judged.",
      [U("c12.cpp", "simd", ["number/*.cpp"]), U("c12.cpp", "plain", ["number/*.cpp"])],
      rule="a case is one operation on one operand tuple compared with the reference, value and representation; distinct cases are distinct (modulus, operand row), (modulus, value), (modulus, base, exponent) and (modulus, byte string) tuples",
      bounds="~2400 edge residues per modulus: all unary operations and inverse, all pairs (quick: half) for add/sub/mul/equal in all aliasings; 3^8 limb patterns for unary operations; ~3000 exponents including every 4-bit window value; all byte lengths 0..160")
check("C13", "exploration", "exhaustive enumeration of scalars, base points and sums of small multiples in several Jacobian forms against complete projective formulas",
      "Scalar families hit every digit position and carry case of the recoding and every exceptional case of the additions; the 2^256 scalars are otherwise not covered. Mixed additions take every pair too, including infinity, equal and opposite operands.",
      [U("c13.cpp", "simd", SM2), U("c13.cpp", "plain", SM2)],
      rule="a case is one group operation or scalar multiplication compared with the reference; distinct cases are distinct (scalar, base), (multiple pair, Jacobian forms) and membership tuples",
      bounds="~9000 scalars (thorough ~37000): windows around 0, n, 2^256, fractions of n, crossings of 3k, all 2^i+-2, every hexadecimal digit, runs of ones; 12 base points including x=0, y=1, x>n; all iB+jB for |i|,|j|<=9 in 25 form pairs for 3 bases, all aliasings")
check("C14", "exploration", "exhaustive enumeration of key values, random-generator outputs and coordinates at every edge against the ranges and reference arithmetic",
      "Every edge value is imported through every entry point or fed as the random word; resulting keys are compared with the reference and used. Other values behave like the listed fillers because the code only compares with constants (covered by C11-C13).",
      [U("c14.cpp", "simd", SM2), U("c14.cpp", "plain", SM2)],
      rule="a case is one import or generation through all entry points; distinct cases are distinct key values, random words and coordinate pairs",
      bounds="~1200 private keys and random words (windows around 0, n, p, 2^256, all 2^i, n+-2^i); ~5000 coordinate pairs (neighbours of 40 curve points, +p aliases, bit flips, edge products, off-curve points solved so that part of the curve equation holds); all histories of 3 (thorough 4) of 14 operations on one key object: imports, refused imports, generations, failing generations, assignment and every use; more than 2^16 operations with one key object")
check("C15", "model_checking", "stateless exhaustive exploration of random-number scripts on the real signer, with hash values solved to force each rejection rule",
      "Every script over the stated alphabet is executed on the real code; the hash is abstracted by one whose output is forced for exactly the right input, which is sound because signing only uses the digest as a number. The mapping from random word to k (reduction modulo n-1, plus 1) is part of the model.",
      [U("c15.cpp", "simd", SM2), U("c15.cpp", "plain", SM2)],
      bounds="3 rejection rules x 7 keys x 8 numbers x all scripts of 3 draws (thorough 5) over 4-5 words; runs of 300 rejected draws; edge words x keys x hash values; all identity lengths near 8191, those of 2^k and seven neighbours plus 0, 16, 4096, 8191 for k=14..32; message lengths 0..199; 6 digest sizes; messages of the lengths 2^k and seven neighbours for k=8..32; more than 2^16 signatures with one key object")
check("C16", "exploration", "exhaustive enumeration of signature edge pairs with hash values solved to make the equation hold, and of all single changes of genuine signatures",
      "For each enumerated (key, r, s) the hash is forced so that the equation holds, fails by one, or would hold under a specific wrong treatment; the decision must equal the standard's. Crashes and exceptions are violations.",
      [U("c16.cpp", "simd", SM2), U("c16.cpp", "plain", SM2)],
      rule="a case is one verification compared with the reference; distinct cases are distinct (key, r, s, hash, identity, message) tuples",
      bounds="23 x 23 edge pairs x 5 keys x 8 hash choices; r+s=n, infinity and doubling cases for 5 keys; x coordinates at and above n and next to p; every bit (quick: every third) of 24 genuine signatures, every byte of message and identity; identity lengths to 65537 and around 2^k for k=14..32, against signatures for a part of the identity; 7 digest sizes; accepted value against every difference in one octet, one word or two complementary octets of r; messages of the lengths 2^k and seven neighbours for k=8..32, and lengths that agree with them modulo 2^16, 2^31 or 2^32; more than 2^16 verifications with one key object")
check("C17", "model_checking", "stateless exhaustive exploration of random-number scripts with forced key streams, and exhaustive alteration of ciphertexts, against the standard",
      "Every script and key-stream pattern in the stated families is executed on the real code; the hash is abstracted by one whose output is forced per input, with SM3 in part. Whether an altered ciphertext must be refused is decided by the standard (a re-encoded point is the same ciphertext).",
      [U("c17.cpp", "simd", SM2, args=["--mem", "1200000"]), U("c17.cpp", "plain", SM2, args=["--mem", "1200000"])],
      bounds="message lengths 0..219 and around 255, 65535 and 131071 key-stream blocks x 3 formats; all zero-block patterns up to 5 blocks; all scripts of 4 draws (thorough 6) over 6 words; every byte of 24 ciphertexts changed (first byte: all values; thorough: all bytes), removed, inserted, truncated, extended to 39 bytes; ~250 crafted points; every first byte x length 0..169; messages of 2^k and its neighbours, k=8..24, with small and large digests; messages around 2^28 to 2^32 octets; the key derivation limit of (2^32-1) blocks for 4 digest sizes; more than 2^16 encryptions/decryptions with one key object")
check("C18", "exploration", "exhaustive enumeration of formats, first bytes, lengths and edge coordinates against an independent decoder",
      "Decoding depends on the format byte, the length and comparisons of the coordinates with p and the curve equation, all of which are enumerated at their edges; arbitrary interior coordinates are covered by fillers. Input buffers end at an inaccessible page.",
      [U("c18.cpp", "simd", SM2), U("c18.cpp", "plain", SM2)],
      rule="a case is one byte string decoded by library and reference, or one point encoded; distinct cases are distinct byte strings",
      bounds="~520 points (small multiples, x or y next to 0, n, p, powers of two) x 3 formats x 11 first bytes x 6 tails; all first bytes x 9 lengths; all lengths 0..100; ~60 neighbours per point in 5 formats; ~1400 compressed x values; 700 square roots; the first 32768 (thorough 262144) multiples of the generator in all formats; off-curve points solved so that part of the curve equation holds")
ASN = ["asn1/*.cpp"]
check("C19", "exploration", "exhaustive enumeration of byte strings, length forms, truncations and nestings against an independent X.690 reader",
      "All short byte strings are enumerated completely; longer ones along the listed families, which drive every branch on tag, length form, length against input and leading content bytes. Input ends at an inaccessible page. Constructed string types and negative integers may be refused or returned (inside the input): the interface cannot express them.",
      [U("c19.cpp", "simd", ASN), U("c19.cpp", "plain", ASN)],
      rule="a case is one byte string given to all decoders; distinct cases are distinct byte strings",
      bounds="all strings of 0..3 bytes, 4 bytes for the typed tags; all strings of 4 and 5 bytes (thorough 6) over 26 structural bytes; every length 0..140, around 256, 65536 and 2^24 in every length form with every header cut; lengths 2^k+-20 and 2^64-2^k+-20; all first two content bytes in 12 lengths; all 256 tree shapes of 8 steps; nesting to 60000 levels; inputs of 2^k+-12 octets for k=8..32 with elements of 10 lengths and of the length of the input +-14")
check("C31", "exploration", "exhaustive enumeration of sizes, line lengths, formats and byte values, and of element trees, against an independent writer of the text",
      "Every size up to several lines is dumped with every line length and set of arguments in the stated families, and every tag octet and tree shape; standard output is captured and compared in full. Input ends at an inaccessible page. Line length 0 (the library exits) and item formats that print nothing are not judged; of malformed input only C19's verdict on the result is judged.",
      [U("c31.cpp", "plain", ASN + ["memory_utils/memdump.cpp"], args=["--mem", "20000"])],
      rule="a case is one call whose whole output is compared; distinct cases are distinct argument tuples and distinct encodings",
      bounds="memdump: 0..259 bytes x 1..70 and 5 larger line lengths, with arguments left out and given; 0..49 bytes x 11 line lengths x 6 item formats x 6 separators x 5 prefixes and ends; every byte value at every column of lines and short lines; lengths around 2^8..2^19; calls in a row. asn1_dump: 248 tag octets x ~130 content lengths x length forms in 4 surroundings, 6561 (thorough 59049) trees, nesting to 64 levels")
check("C20", "exploration", "exhaustive enumeration of contents and lengths encoded and decoded back, against an independent DER writer",
      "Every integer of up to three bytes, every leading-zero count and every length around each length-octet boundary is encoded into a buffer of exactly the announced size before an inaccessible page. Content bytes beyond the leading ones are copied and covered by fillers. Header functions for bit and octet strings are taken as starting a constructed value, as the library's own test uses them.",
      [U("c20.cpp", "simd", ASN), U("c20.cpp", "plain", ASN)],
      rule="a case is one value encoded, measured and decoded; distinct cases are distinct values, lengths and trees",
      bounds="all integers of 0..3 bytes; 0..70 leading zeros x 256 bytes x 0..70 more bytes; integers, octet strings and bit strings (each unused-bit count) of 0..300 bytes and around 2^16 and 2^24; headers and announced lengths for 2^k+-40, k=0..63; 81 trees x 34 sizes")
check("C21", "exploration", "exhaustive enumeration of component values, lengths, alterations and assemblies of parts against an independent DER reader and writer",
      "All component values by leading bytes, every ciphertext length near a length-octet boundary and every single-byte change of ten encodings are run on the real code between inaccessible pages. Extra elements after the last one, constructed string types and negative integers may be refused or returned inside the input.",
      [U("c21.cpp", "simd", SM2), U("c21.cpp", "plain", SM2)],
      rule="a case is one structure encoded and decoded, or one byte string decoded; distinct cases are distinct byte strings per decoder",
      bounds="0..32 leading zero bytes x 255 first bytes for each component; 10 hash lengths x 300 ciphertext lengths, 300 lengths around 2^16; every byte x 256 values, removals, insertions, truncations of 10 encodings; all pairs of structural bytes x 18 x 18 values; all sequences of up to 5 of 11 parts; all 10 encodings at the start of inputs of 2^k octets (k=8..32), ciphertexts and hashes of such lengths")
check("C22", "exploration", "exhaustive enumeration of edge operands of every field level and group, all aliasings, scalars and encodings against polynomial arithmetic modulo w^12+2",
      "Every operation of every level is run on all pairs of a set holding zero, one, every basis element, sparse, embedded-subfield and dense elements; group laws on all small multiples in several Jacobian forms. Operands outside these families are covered only through bilinearity of the formulas. The sign octet of compressed G2 points is not judged: the library cannot read that form back and the standard's rule is not implemented on input.",
      [U("c22.cpp", "simd", SM9, hopt=["-O2"]), U("c22.cpp", "plain", SM9, hopt=["-O2"])],
      rule="a case is one operation on one operand tuple in one aliasing; distinct cases are distinct (level, operands), (group, scalar, base), (multiples, forms) and byte strings",
      bounds="~900 prime-field values (all unary, 1/6 of the pairs; thorough all); fp2: 144 elements, all pairs; fp4: 268 elements, half of the pairs; fp12: 132 elements, all pairs; ~200 exponents x 5 bases; ~1900 scalars x generators (1/40 with the other bases); all sums |i|,|j|<=5 in 25-36 form pairs x 3 bases per group; 42 points per group: formats x 256 first bytes, truncations, bit changes, coordinates plus p")

check("C23", "exploration", "exhaustive enumeration of point pairs, scalar grids and call orders against a direct evaluation of the R-ate formula and of powers of its value at the generators",
      "The reference evaluates the Miller loop on the untwisted points with affine line functions in the polynomial basis of Fp12 and raises to (p^12-1)/N by plain square and multiply; it shares nothing with the library. Points and scalars outside the enumerated families are covered by uniformity of the formulas only.",
      [U("c23.cpp", "plain", SM9, hopt=["-O2"]), U("c23.cpp", "simd", SM9, hopt=["-O2"])],
      rule="a case is one evaluation of the pairing or of one of its two fixed-argument forms; distinct cases are distinct (P,Q), (a,b), (P,P',Q), (P,Q,Q') and call positions",
      bounds="23 G1 points (small, near-p and filler x; multiples) x ~17 G2 points (multiples, images of small twist points) directly; ~60 scalars squared (thorough ~260); all pairwise sums; all 64 orders of 3 calls")

check("C24", "exploration", "exhaustive enumeration of key values, random words, coordinate variants, identities, forced hash values and histories of one key object against GB/T 38635.2 over reference arithmetic",
      "The random generator and (for the undefined case) the hash are replaced through the library's own interfaces; every key is also exercised by one signature compared with the reference. Key values outside the families are covered by uniformity only.",
      [U("c24.cpp", "plain", SM9, hopt=["-O2"]), U("c24.cpp", "simd", SM9, hopt=["-O2"])],
      rule="a case is one import, generation or extraction with its observations; distinct cases are distinct scalars and modes, words, coordinate strings, (key, identity, hid, digest size), forced values and histories",
      bounds="~340 scalars around 0, N, p, 2^256 and powers of two; 10 public and 8 user points with every bit flip, word neighbour, +p, negation; identities of every length 0..199 x 6 keys, all 256 hid; 5 digest sizes x 96 forced families; all histories of 4 master operations and 3 user-key operations (thorough 5 and 4); identities of the lengths 2^k and seven neighbours for k=8..32")

check("C25", "exploration", "exhaustive enumeration of scripted random sequences, forced hash values, signature byte strings and call histories against GB/T 38635.2 over reference arithmetic",
      "Random generator and hash are replaced through the library's own interfaces, so the retry rule, h at its limits and the exceptional point addition are reached. The reference decides verification with its own pairing (directly when the logarithm of the point is unknown). Byte strings farther from a valid signature than the enumerated changes are covered by uniformity only.",
      [U("c25.cpp", "plain", SM9, hopt=["-O2"]), U("c25.cpp", "simd", SM9, hopt=["-O2"], thorough_only=True)],
      rule="a case is one signing or one verification; distinct cases are distinct (key, signature, format, draw count), (signature string, message, identity, identifier, key) and history positions",
      bounds="all scripts of 3 draws (thorough 4) over two rejected numbers in each spelling and two accepted ones, runs of 60 rejections; 6 master keys x 8 edge numbers x 3 formats; message lengths 0..259; all 256 identifiers; every octet changed 10 ways (format octet 255 ways) x 3 formats; all lengths 0..139; every history of 3 signing/verifying calls on two keys (thorough 5); h against every difference in one octet, one word or two complementary octets; messages and identities of the lengths 2^k and seven neighbours for k=8..32; 1100 (thorough 17000) operations with one key object")

ALL = GCM + ["number/*.cpp", "sm2/*.cpp", "sm3/*.cpp", "asn1/*.cpp", "sm9/*.cpp"]
ops_bounds = "the script family of harness/ops.h: ciphers, 10 mode directions x 4 ciphers, GCM, SM3, GHASH, HMAC, memxor, byte order, uint256, SM2 and SM9 fields, ASN.1 coding and dump, SM2 and SM9 keys, signatures, encryption, points, pairing; ~17000 scripts (thorough ~90000)"
check("C28", "model_checking", "stateless exhaustive exploration of thread schedules of the real code under a controlled scheduler up to a preemption bound, with vector-clock detection of unordered accesses",
      "Compiler instrumentation reports every access of library and harness; memory a thread does not own is tracked per octet, guards, locks and atomics order accesses. Scheduling points are interface calls, synchronisation and accesses to written shared locations (accesses to memory no other thread touches commute); preemption at every function entry cross-checks that reduction. Only scripts of the family run; statically linked vector code is included.",
      [U("c28.cpp", c, ALL, hopt=["-O2"], opt=["-O2"], cxx="clang++", flags=TSAN, lib_flags=TSAN, extra=["c28rt.cpp"], link=["-rdynamic", "-ldl"], name="c28-" + c) for c in ("simd", "plain")],
      bounds="two threads: all schedules with up to 2 preemptions (heavy operations 1 or 0; thorough 3, 2, 1) for pairs of variants of each of the scripts of harness/ops.h and of 13 scripts on one shared constant object; all pairs of scripts with 1 (thorough 2); every variant of the family in both orders; one preemption at every function entry; three threads with 1 (thorough 2); in every run of two different objects the scripts are the first use of the library in their process")
check("C29", "exploration", "exhaustive enumeration of scripts over the whole interface with every buffer exactly sized between inaccessible pages, and again under address and bounds instrumentation",
      "Each script runs four times: buffers ending at and starting after an inaccessible page, inputs mapped read-only, outputs first roomy and then exactly the size written; a fault or a difference is a violation. The instrumented build also sees accesses that leave an object inside the library. Lengths and histories outside the family are not covered here; the checks of the single modules use guarded buffers too.",
      [U("c29.cpp", "simd", ALL, hopt=["-O1"]), U("c29.cpp", "plain", ALL, hopt=["-O1"]), U("c29.cpp", "sse", ALL, hopt=["-O1"]),
       U("c29.cpp", "simd", ALL, hopt=["-O1"], opt=["-O1"], lib_flags=ASAN, flags=ASAN + ["-DMC_NO_RLIMIT"], link=["-fsanitize=address,bounds"], env=dict(ASAN_OPTIONS="abort_on_error=1:detect_stack_use_after_return=1:detect_leaks=0:handle_segv=1"), name="c29-simd-asan"),
       U("c29.cpp", "plain", ALL, hopt=["-O1"], opt=["-O1"], lib_flags=ASAN, flags=ASAN + ["-DMC_NO_RLIMIT"], link=["-fsanitize=address,bounds"], env=dict(ASAN_OPTIONS="abort_on_error=1:detect_stack_use_after_return=1:detect_leaks=0:handle_segv=1"), name="c29-plain-asan")],
      rule="a case is one script in one placement in one build; distinct cases are distinct (script, variant, transcript) per build",
      bounds=ops_bounds)
import glob as _glob, os as _os, struct as _struct
def compare_transcripts(per_unit, work, tot):
    """every configuration must have produced the same transcript digest for every script"""
    out, ref, refname = [], None, None
    for f in sorted(_glob.glob(_os.path.join(work, "*.dig"))):
        name = _os.path.basename(f)[:-4]; b = open(f, "rb").read(); d = _struct.unpack("<%dQ" % (len(b) // 8), b)
        if ref is None: ref, refname = d, name; items = [l.rstrip("\n").split("\t") for l in open(f + ".txt")]; continue
        if len(d) != len(ref): raise RuntimeError("transcripts of different length")
        bad = [i for i in range(len(d)) if d[i] and ref[i] and d[i] != ref[i]]
        for i in bad[:3]:
            k = max(j for j in range(len(items)) if int(items[j][0]) <= i); it = items[k]
            out.append(dict(unit=name, only="transcript:%d" % k, key="configurations differ", scenario="transcript", item=k,
                            at="%s, variant %d" % (it[3], int(it[1]) + i - int(it[0])), msg="%s and %s give different transcripts (%016x, %016x); %d scripts differ" % (name, refname, d[i], ref[i], len(bad))))
    return out
check("C30", "exploration", "exhaustive enumeration of scripts over the whole interface executed in every build configuration, transcripts compared",
      "Every script reports every output, error and exception; the transcripts must be equal in all configurations, and equal when the script runs again over differently filled stack and heap memory. Configurations are the portable and table-driven backends, each vector width and CPU-feature set, and the extreme optimisation levels of both compilers. Inputs outside the family are not covered here; the checks of the single modules compare at least two configurations with references.",
      [U("c30.cpp", c, ALL, hopt=["-O1"], args=["--mem", "20000"]) for c in ("plain", "portable", "sse", "simd", "avx-only", "num-only", "aes-only", "sm4-lut", "sm3-lut")] +
      [U("c30.cpp", "plain", ALL, hopt=["-O1"], args=["--mem", "20000"], opt=["-O3"], name="c30-plain-O3"), U("c30.cpp", "simd", ALL, hopt=["-O1"], args=["--mem", "20000"], opt=["-O3"], name="c30-simd-O3"),
       U("c30.cpp", "simd", ALL, hopt=["-O1"], args=["--mem", "20000"], cxx="clang++", name="c30-simd-clang"), U("c30.cpp", "plain", ALL, hopt=["-O1"], args=["--mem", "20000"], cxx="clang++", name="c30-plain-clang"),
       U("c30.cpp", "plain", ALL, hopt=["-O1"], args=["--mem", "20000"], opt=["-O0"], name="c30-plain-O0", thorough_only=True), U("c30.cpp", "simd", ALL, hopt=["-O1"], args=["--mem", "20000"], opt=["-O0"], name="c30-simd-O0", thorough_only=True)],
      rule="a case is one script in one configuration; distinct cases are distinct (script, variant, transcript)",
      bounds=ops_bounds + "; single calls of up to 2^29+65 octets; 13 configurations (thorough 15)", post=compare_transcripts)
check("C32", "model_checking", "exhaustive exploration of call histories and contexts on the real objects: every ordered pair of scripts, every switch point of two scripts in one thread, every enumerated placement of buffers and objects, before and after main",
      "The scripts of harness/ops.h are run in every context and must give the transcript they give alone: buffers at every alignment and in peculiar mutual positions, objects at every offset their alignment allows and directly before an inaccessible page, copies and assignments across offsets, inside constructor functions that run before and destructor functions that run after the library's static objects live, after any other script in the same process, and interleaved in one thread with any other script. Scripts, variants and switch depths outside the bounds are not covered; preemptive threads are C28.",
      [U("c32.cpp", "simd", ALL, hopt=["-O1", "-fno-lifetime-dse"]), U("c32.cpp", "plain", ALL, hopt=["-O1", "-fno-lifetime-dse"]), U("c32.cpp", "simd", ALL, hopt=["-O3"], opt=["-O3"], name="c32-simd-O3"), U("c32.cpp", "plain", ALL, hopt=["-O3"], opt=["-O3"], name="c32-plain-O3")],
      bounds="every script (all interface calls of the library, harness/ops.h) in 67 placements of its buffers (offsets modulo 64, adjacent both ways, below and across 4 GiB, 2^32 apart); 24 variants each before and after main; all ordered pairs of scripts and of up to 12 (thorough 24) variants as A B A B B; every input changed in its first and last octet; every pair of scripts and of variants interleaved at every single switch point of A (variants: of A and B; up to 2500 (20000) points); 48 classes x 4 ways of making x every aligned offset 0..64 before an inaccessible page x 3 memory fillings, and over the octets of two earlier objects of the class joined at every multiple of 8 (large classes 16, SM9 keys 32)")
check("C33", "model_checking", "exhaustive fault injection on the real objects: every octet at which the generator can fail, every digest at which the hash can fail, and all histories of failing and succeeding calls up to a depth",
      "The generator and the hash are supplied by the harness through the library's interfaces and fail at each point of each operation, also after rejected numbers, with several exceptions and several ways of writing the rest of the buffer. What a failed call leaves in its output buffers is judged only as far as it must not be a valid signature or ciphertext; verification is declared noexcept and its hash is not made to fail.",
      [U("c33.cpp", "simd", ALL), U("c33.cpp", "plain", ALL)],
      bounds="every octet of 1..3 draws (SM9 signing: a third of them) x 5 ways of filling the rest x 6 exceptions, x 5 pasts of the object for generation, x 4 keys x 3 rejection rules for signing, x 7 lengths x 3 formats for encryption; every digest of 5 operations x 24 cases; all histories of 4 (thorough 5) of 11 (SM2) and 7 (SM9) operations")
