"""The properties, as data.  `python3 lib/props.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


MPI = "src/mpi/"
PROPS = [
    P("C01", "Big-integer add, subtract, multiply, square, abs and compare are exact",
      "For all integers a and b of any size and sign, addition, subtraction, multiplication (by every multiplication algorithm the library exports), squaring (by every squaring algorithm), absolute value, their magnitude-only variants and comparison deliver the mathematically exact result. "
      "The result does not depend on what the destination held before or on whether the destination is also an operand; operands that are not the destination keep their value. "
      "A result is always in normal form: no leading zero digit and zero is never negative.",
      ["inputs", "histories", "configurations"],
      "all operand values, lengths and signs, all aliasings, all earlier contents of the destination, all digit sizes and multiplier selections",
      "mpi_test.data has about a hundred fixed vectors, always into a fresh destination, always 64-bit digits; carries across digits, Karatsuba/Toom-3 splits of uneven operands and reuse of a register are sampled once or never.",
      [MPI + f for f in ("mpi_add.c", "mpi_sub.c", "mpi_add_abs.c", "mpi_sub_abs.c", "mpi_mul.c", "mpi_mul_abs.c", "mpi_mul_baseline.c", "mpi_mul_comba.c", "mpi_mul_karatsuba.c", "mpi_mul_toom3.c", "mpi_sqr.c", "mpi_sqr_baseline.c", "mpi_sqr_comba.c", "mpi_sqr_karatsuba.c", "mpi_abs.c", "mpi_cmp.c", "mpi_cmp_abs.c")],
      [("carry propagation", MPI + "mpi_add_abs.c, mpi_sub_abs.c"), ("column sums", MPI + "mpi_mul_comba.c"), ("split and recombine", MPI + "mpi_mul_karatsuba.c, mpi_mul_toom3.c"), ("normalisation", MPI + "mpi_pvt.h cry_mpi_adjust")],
      [("register", "value of a cry_mpi", "include/cry/mpi.h struct cry_mpi")], ["return of each call"]),
    P("C02", "Big-integer division yields the floor quotient and matching remainder",
      "For every dividend a and every non-zero divisor b, division yields q = floor(a/b) and r = |a - q*b|; in particular for b > 0 it yields a = q*b + r with 0 <= r < b, and modular reduction yields that r. "
      "Magnitude-only division yields the quotient and remainder of the magnitudes. "
      "Either output may be omitted, outputs may be operands, unrelated operands keep their value, and division by zero is reported as an error.",
      ["inputs", "histories", "configurations"],
      "all dividends and divisors (sizes, signs, digit patterns that exercise quotient-digit correction), output omission and aliasing, digit sizes, both division algorithms",
      "seven fixed vectors; the quotient-estimate correction and add-back steps trigger for about one divisor in 2^64 with 64-bit digits.",
      [MPI + "mpi_div.c", MPI + "mpi_div_abs.c"],
      [("normalise, estimate, correct", MPI + "mpi_div_abs.c"), ("sign adjustment", MPI + "mpi_div.c")]),
    P("C03", "Big-integer shifts, sizes and conversions preserve the value",
      "Shifting by n bits multiplies the magnitude by 2^n or divides it by 2^n discarding the fraction, for every value and every n; the reported bit and byte sizes are exact. "
      "Loading from and storing to big-endian bytes, numerals (radix 2 to 36 when loading, 2 to 16 when storing) and machine integers, and copying, convey exactly the value whatever the destination held before. "
      "A value that does not fit the destination buffer or machine integer is refused with an error, never truncated.",
      ["inputs", "histories", "configurations"],
      "all values, shift amounts, buffer sizes and paddings, radices, earlier register contents, digit sizes",
      "a handful of hex strings and 64-bit digits; no binary round trip, no other radix, no reuse of a register holding another value.",
      [MPI + f for f in ("mpi_shl.c", "mpi_shr.c", "mpi_bin.c", "mpi_str.c", "mpi_core.c")],
      [("digit and bit shift", MPI + "mpi_shl.c, mpi_shr.c"), ("digit packing", MPI + "mpi_bin.c"), ("radix conversion", MPI + "mpi_str.c"), ("int conversion", MPI + "mpi_core.c")]),
    P("C04", "Powers, modular powers, inverses, gcd, lcm and roots are exact",
      "Exponentiation b^e (e >= 0), modular exponentiation b^e mod m (e >= 0, m > 0, result in [0,m)), gcd and lcm of integers of any sign (both non-negative) and the integer square root (floor) yield the exact result, whatever the destination held and also when it is an operand. "
      "The modular inverse of a modulo m > 1 is the x in [0,m) with a*x = 1 (mod m) when gcd(a,m) = 1, and otherwise an error is returned. "
      "A negative exponent, a non-positive modulus and the root of a negative number are refused with an error.",
      ["inputs", "histories", "configurations"],
      "all operands of any size, sign and aliasing; all digit sizes and both inverse algorithms",
      "a dozen fixed exponentiation vectors; gcd, lcm, inverse and sqrt have no test of their own.",
      [MPI + f for f in ("mpi_exp.c", "mpi_mod_exp.c", "mpi_inv.c", "mpi_gcd.c", "mpi_lcm.c", "mpi_sqrt.c")],
      [("square and multiply", MPI + "mpi_mod_exp.c, mpi_exp.c"), ("extended Euclid", MPI + "mpi_inv.c"), ("binary gcd", MPI + "mpi_gcd.c"), ("Newton iteration", MPI + "mpi_sqrt.c")]),
    P("C05", "Random integers stay in range and primality verdicts are right",
      "A random integer of n bits is in [0, 2^n) and a random integer below m (m > 0) is in [0, m), in normal form, whatever bytes the generator delivers. "
      "The primality test accepts every prime and rejects 0, 1 and every composite (up to the negligible error of its random rounds). "
      "Prime generation of n >= 3 bits, when it reports success, delivers a prime of exactly n bits; it fails only when none of the tries allowed gave a prime.",
      ["inputs", "histories", "configurations"],
      "all bit sizes and bounds, all generator outputs (including leading zero bytes), all integers tested",
      "no direct test; keygen tests use a fixed seed and never look at the numbers.",
      [MPI + "mpi_rand.c", MPI + "mpi_prime.c"],
      [("masking and normalisation", MPI + "mpi_rand.c"), ("trial division and Miller-Rabin", MPI + "mpi_prime.c")]),
    P("C06", "Elliptic-curve add, double and multiply implement the group law",
      "On every short Weierstrass curve over a prime field p > 3, adding, doubling and multiplying points by an integer k >= 0 yields the affine point (or the point at infinity) that the group law prescribes, including equal points, opposite points, points of order two, infinity and k = 0, and also when the result is stored over an operand. "
      "Each built-in curve has the published parameters: a generator on the curve with the published prime order.",
      ["inputs", "histories", "configurations"],
      "all curves, all points and scalars, aliasing of result and operand, digit sizes, all eleven named curves",
      "tests multiply the generator of each named curve by about fifty scalars; special cases of the addition law and other points are hardly reached.",
      ["src/ecp/" + f for f in ("ecp_add.c", "ecp_dbl.c", "ecp_mul.c", "ecp_core.c", "ecp_curves.c")],
      [("affine formulas and case analysis", "src/ecp/ecp_add.c, ecp_dbl.c"), ("sliding window", "src/ecp/ecp_mul.c"), ("tables", "src/ecp/ecp_curves.c")]),
    P("C07", "DSA and ElGamal: own signatures verify, nothing but the equation is accepted",
      "For every valid key and every message digest, a signature produced by DSA or ElGamal signing has both components in range (0 < r, s < q for DSA; 0 < r < p, 0 < s < p-1 for ElGamal), is accepted by verification, and uses a nonce that no earlier signature used (in groups too large for coincidence). "
      "Verification accepts a pair (r, s) only if both are in range and satisfy the scheme's verification equation for that digest and public key; anything else (zero, negative, out-of-range or altered components, another digest) is rejected. "
      "The DSA digest enters as the big-endian integer of its leftmost bits, at most as many as the group order has; ElGamal refuses a digest longer than its modulus. "
      "DSA key generation yields primes p and q of the requested sizes with q dividing p-1, a generator of order q, and a matching key pair with private key in [1, q).",
      ["inputs", "histories", "configurations"],
      "all keys (groups small and large), digests, signatures and random nonces",
      "tests sign one message per scheme and verify it; no invalid signature is ever presented, so a verifier that always accepts passes.",
      ["src/crypt/dsa.c", "src/crypt/elgamal.c"],
      [("range checks and verification equation", "src/crypt/dsa.c cry_dsa_verify, src/crypt/elgamal.c cry_elgamal_verify2"), ("nonce retry", "cry_dsa_sign, cry_elgamal_sign2")]),
    P("C08", "ECDSA: own signatures verify, nothing but the equation is accepted",
      "On every curve with prime order n and for every key pair and digest, a signature produced by ECDSA signing has 0 < r, s < n, is accepted by verification, and uses a nonce that no earlier signature used (in groups too large for coincidence). "
      "Verification accepts (r, s) only if 0 < r, s < n and the x coordinate of u1*G + u2*Q (not infinity) equals r modulo n for that digest and public key; anything else is rejected. The digest enters as the big-endian integer of its leftmost bits, as many as n has. "
      "Key generation yields a private key in [1, n) and the matching public point.",
      ["inputs", "histories", "configurations"],
      "all curves, keys, digests, signatures and nonces",
      "two tests verify one good signature each; no invalid signature is presented.",
      ["src/crypt/ecdsa.c"],
      [("range checks and verification equation", "src/crypt/ecdsa.c cry_ecdsa_verify"), ("nonce selection and retry", "cry_ecdsa_sign")]),
    P("C09", "RSA decryption inverts encryption; verification accepts only valid signatures",
      "For every RSA key, decrypting what was encrypted returns the message: exactly with PKCS#1 v1.5 padding and for any non-empty message length (messages longer than one block included), and zero-extended to whole blocks without padding (blocks not below the modulus are refused). Every v1.5 encryption draws fresh random non-zero padding. "
      "A signature verifies for exactly the data it was made for (without padding: up to the zeros that fill the last block); empty input, a v1.5 block that decrypts to malformed padding, and input that is not a whole number of modulus-sized blocks, are refused with an error. "
      "The key generator, for a size it supports (a multiple of 16 bits), yields n = p*q of that size with p, q prime and e*d = 1 modulo lcm(p-1, q-1).",
      ["inputs", "histories", "configurations"],
      "all keys, messages of every length, random paddings, corrupted ciphertexts and signatures",
      "tests use one key and a one-byte message; multi-block input, wrong signatures and malformed padding are never tried.",
      ["src/crypt/rsa.c"],
      [("block loop", "src/crypt/rsa.c cry_rsa_encrypt, cry_rsa_decrypt"), ("padding_add/padding_del", "src/crypt/rsa.c"), ("compare", "cry_rsa_verify"), ("key generation", "cry_rsa_keygen")]),
    P("C10", "Diffie-Hellman parties arrive at the same secret, in the exact group",
      "For every prime group and every curve, two parties that exchange tokens as the API prescribes end with the same shared secret, equal to g^(ab) mod p, respectively the point ab*G. "
      "Tokens and secrets exported into a byte buffer denote exactly that number, padded with leading zeros to the buffer, or are refused when they do not fit.",
      ["inputs", "histories", "configurations"],
      "all groups, secret exponents, histories of calls of the two parties and buffer sizes",
      "the DH and ECDH tests are not even linked into the test program.",
      ["src/crypt/dh.c", "src/crypt/ecdh.c"],
      [("agree / finalize", "src/crypt/dh.c"), ("agree / final", "src/crypt/ecdh.c")]),
    P("C11", "Message digests are the standard ones for any chunking of the input",
      "For every message and every way of splitting it into successive updates (empty ones included), MD5, SHA-1, SHA-256, SHA-384 and SHA-512 deliver the digest the standards define for the concatenated message. "
      "The one-shot functions agree, the input is not modified, a context can be initialised again after a digest, and several contexts in use at once do not influence each other.",
      ["inputs", "histories"],
      "all messages, lengths (block and padding boundaries in particular), splits and interleavings of contexts",
      "KATs feed a few messages in one update; padding boundaries and multi-update histories are sampled at best once.",
      ["src/hash/md5.c", "src/hash/sha1.c", "src/hash/sha256.c", "src/hash/sha512.c"],
      [("partial-block buffering", "update functions"), ("length and padding", "digest functions")],
      [("partial block, bit length", "bytes not yet compressed", "cry_md5_ctx, cry_sha1_ctx, cry_sha256_ctx, cry_sha512_ctx")]),
    P("C12", "HMAC equals RFC 2104 for any hash, key length and chunking",
      "For every key length (empty, one block, longer than a block), every message and every split of it into updates, the HMAC over a pluggable hash with 64-byte blocks equals the RFC 2104 construction over that hash. "
      "After the MAC is delivered the context can be initialised again and behaves like a new one.",
      ["inputs", "histories"],
      "all keys, messages and splits; any hash plugged in through the hash interface",
      "tests use a list of vectors in a single update.",
      ["src/crypt/hmac.c"],
      [("inner and outer pad", "src/crypt/hmac.c"), ("key reduction", "cry_hmac_init")]),
    P("C13", "CMAC equals SP 800-38B for any message length and chunking",
      "For every key, every message (empty included) and every split of it into updates, the CMAC over a pluggable 16-byte block cipher equals the SP 800-38B / RFC 4493 construction. "
      "A context initialised again behaves like a new one.",
      ["inputs", "histories"],
      "all keys, message lengths (multiples of the block in particular) and splits",
      "tests use the RFC's four messages.",
      ["src/crypt/cmac.c"],
      [("pending last block", "src/crypt/cmac.c cry_cmac_update"), ("subkeys", "cry_cmac_digest")]),
    P("C14", "CRCs equal their polynomial definition for any chunking",
      "For every byte string and every split of it into updates the CRC-16 (CCITT, IBM, DNP) and CRC-32 (Ethernet) values equal the bitwise polynomial division with the variant's polynomial, start value, reflection and output complement. "
      "The one-shot, finalised and digest-bytes forms agree on the same value; a caller's own start value and flags (output complement, byte swap) are honoured in both widths.",
      ["inputs", "histories"],
      "all inputs, lengths, splits, start values and flags",
      "a few strings; a wrong entry in a 256-entry table is unlikely to be touched.",
      ["src/crc/" + f for f in ("crc16.c", "crc16_ccitt.c", "crc16_ibm.c", "crc16_dnp.c", "crc32.c", "crc32_eth.c")],
      [("table lookup loop", "src/crc/crc16.c, crc32.c"), ("tables", "src/crc/*_ccitt.c etc.")]),
    P("C15", "AES is FIPS-197 whatever was processed before with the context",
      "For keys of 16, 24 and 32 bytes and every whole number of blocks, encryption and decryption yield the FIPS-197 result block by block, in place or into another buffer. "
      "Any history of encryptions, decryptions and new keys on the same context leaves later results unaffected, and nothing beyond the given length is read or written.",
      ["inputs", "histories"],
      "all keys, blocks, lengths, in-place use and interleavings of encrypt, decrypt and key changes",
      "KATs always set a fresh key and then only encrypt or only decrypt.",
      ["src/crypt/aes.c"],
      [("key schedule and its inversion", "src/crypt/aes.c"), ("round tables", "src/crypt/aes.c")],
      [("key schedule direction", "whether the schedule is for encryption or decryption", "cry_aes_ctx")]),
    P("C16", "DES and triple DES follow FIPS 46-3 whatever was processed before",
      "For 8-byte and 24-byte keys and every whole number of blocks, encryption and decryption yield the DES, respectively the three-key EDE triple-DES result block by block, in place or into another buffer. "
      "Any history of encryptions, decryptions and new keys on the same context leaves later results unaffected, and nothing beyond the given length is read or written.",
      ["inputs", "histories"],
      "all keys, blocks, lengths, in-place use and histories",
      "KATs only, one block, fresh key each time.",
      ["src/crypt/des.c"],
      [("key schedule, Feistel rounds, EDE chaining", "src/crypt/des.c")]),
    P("C17", "CBC chains blocks across calls and decryption inverts encryption",
      "For every block cipher plugged in, CBC encryption and decryption of any whole number of blocks (none included) equal the SP 800-38A definition over the concatenation of all calls since the IV was set. "
      "This holds however the data is split into block-multiple calls and whether processed in place or into another buffer; decryption under the same key and IV restores the plaintext; bytes after the last whole block are neither processed nor written, and nothing outside the output is.",
      ["inputs", "histories"],
      "all ciphers (block 8 and 16), keys, IVs, data, splits and in-place use",
      "tests process whole vectors in a single call.",
      ["src/crypt/cbc.c"],
      [("chaining value", "src/crypt/cbc.c")],
      [("ctr", "last ciphertext block", "cry_cbc_ctx")]),
    P("C18", "CTR mode is XOR with the encrypted counter stream, counter carried on",
      "For every block cipher plugged in and every initial counter, CTR processing of any data length in place or into another buffer XORs it with the encryption of successive big-endian counter values, wrapping modulo the block. "
      "A call that processes a whole number of blocks leaves the counter at the next value, so block-multiple splits give the same result as a single call; decryption is the same operation.",
      ["inputs", "histories"],
      "all ciphers (block 8 and 16), counters (carry over all bytes), data lengths, splits and in-place use",
      "tests encrypt four blocks with one counter that never carries.",
      ["src/crypt/ctr.c"],
      [("counter increment", "src/misc.h CRY_INCREMENT_BE"), ("batched in-place path", "src/crypt/ctr.c")]),
    P("C19", "CFB and CFB-8 decryption inverts encryption and both follow SP 800-38A",
      "For every block cipher plugged in, CFB (full block) and CFB-8 encryption and decryption of data equal the SP 800-38A definition, in place or into another buffer; a final partial block is handled by truncating the key stream. "
      "Splitting the data into block-multiple calls (any calls for CFB-8) does not change the result.",
      ["inputs", "histories"],
      "all ciphers, keys, IVs, data lengths, splits and in-place use",
      "tests only run single-call vectors.",
      ["src/crypt/cfb.c", "include/cry/cfb.h"],
      [("shift register feedback", "src/crypt/cfb.c")],
      [("v", "last ciphertext", "cry_cfb_ctx")]),
    P("C20", "GCM ciphertext and tag are the SP 800-38D values for any lengths",
      "For every key, IV of any non-zero length, additional data and message of any length, the GCM ciphertext (or plaintext on decryption) and tag of any size up to 16 equal SP 800-38D. "
      "Additional data and message may be supplied in several block-multiple pieces; decryption computes the same tag over the ciphertext, and setting a new IV starts an independent message.",
      ["inputs", "histories"],
      "all keys, IV lengths, aad and message lengths, splits, tag sizes and successive messages on one context",
      "vectors from one file, a single call each.",
      ["src/crypt/gcm.c"],
      [("GHASH", "src/crypt/gcm.c"), ("counter", "src/crypt/gcm.c"), ("length block", "cry_gcm_digest")]),
    P("C21", "ARC4 and Trivium key streams are exact and continue across calls",
      "For every ARC4 key (1 to 256 bytes) and every 80-bit Trivium key and IV, processing XORs the data with the cipher's defined key stream, in place or into another buffer. "
      "Splitting the data into several calls (any for ARC4, multiples of 4 bytes for Trivium) continues the key stream exactly, and setting a key or IV restarts it.",
      ["inputs", "histories"],
      "all keys, IVs, lengths, splits and re-keyings",
      "tests process fixed vectors in one call.",
      ["src/crypt/arc4.c", "src/crypt/trivium.c"],
      [("permutation state", "src/crypt/arc4.c"), ("shift registers", "src/crypt/trivium.c")]),
    P("C22", "Seeded random streams are deterministic and independent of request sizes",
      "After seeding a generator (AES counter generator or LFSR113) with given bytes, the stream it delivers is a function of the seed alone: the defined one, however it is divided into requests (LFSR113 draws whole 32-bit words, a request that ends inside a word drops the rest of it), and re-seeding restarts it whatever was drawn before. "
      "Requests write exactly the requested bytes.",
      ["inputs", "histories"],
      "all seeds and seed sizes, all sequences of requests and re-seedings",
      "no test looks at the delivered bytes.",
      ["src/prng/prng_aes.c", "src/prng/prng_lfsr113.c"],
      [("state and leftover handling", "src/prng/prng_aes.c"), ("seed expansion and minimum seeds", "src/prng/prng_lfsr113.c")]),
    P("C23", "AES key wrap is RFC 3394 and unwrap detects any alteration",
      "For every key-encryption key of 16, 24 or 32 bytes and key data of two or more 8-byte blocks, wrapping yields the RFC 3394 result and unwrapping it returns the key data. "
      "Unwrapping anything whose integrity check does not match fails and leaves nothing of the recovered key data in the output; data that is not at least two whole 8-byte blocks is refused with an error.",
      ["inputs"],
      "all keys, key data of any length, altered wrappings",
      "six RFC vectors of at most 32 bytes; one all-zero wrapping as the only bad input.",
      ["src/utils/aes_wrap.c"],
      [("step counter", "src/utils/aes_wrap.c"), ("integrity value", "src/utils/aes_wrap.c")]),
    P("C24", "memxor writes the XOR of the original sources for every overlap",
      "For every size, alignment and placement of destination and sources in memory (any overlap), the two-source XOR leaves in the destination the bytewise XOR of what the sources held before the call; the one-source form does so when the source is disjoint from, equal to or ahead of the destination. "
      "No byte outside the destination changes.",
      ["inputs", "configurations"],
      "all sizes, alignments and relative placements",
      "nine fixed placements of thirteen bytes.",
      ["src/crypt/memxor.c"],
      [("direction and overlap case analysis", "src/crypt/memxor.c")]),
    P("C25", "Base64 encoding is RFC 4648 and decoding inverts it",
      "For every byte string (empty included) encoding yields the padded RFC 4648 text and its length, and decoding that text yields the bytes and their count. "
      "Text that is not a whole number of four-character groups of the alphabet with padding only at the end is refused. "
      "No byte beyond the reported output is written.",
      ["inputs"],
      "all byte strings of all lengths",
      "about ten strings.",
      ["src/crypt/base64.c"],
      [("group packing and padding", "src/crypt/base64.c")]),
    P("C26", "Affine and Hill ciphers invert exactly; unusable keys are refused",
      "With an accepted affine key (every multiplier odd, i.e. invertible modulo 256), or a Hill key accepted with its inverse, encryption is the defined modular map and decryption restores the plaintext for every input length (Hill extends its input with zeros to whole blocks), in place or into another buffer for affine. "
      "Hill keys whose length is not a square are cut to the largest square, at most 10 by 10; keys without an inverse and empty keys are refused with an error.",
      ["inputs"],
      "all keys and messages",
      "a few vectors each.",
      ["src/crypt/affine.c", "src/crypt/hill.c"],
      [("inverse modulo 256", "src/crypt/affine.c"), ("matrix key handling", "src/crypt/hill.c")]),
    P("C27", "An allocation failure is reported and harms nothing",
      "When any single memory allocation made during a library call fails, the call either still delivers the right result or reports failure; it never crashes, never reports success with a wrong result, and afterwards every operand can still be used and cleared without leak or double free. "
      "Bulk initialisation that fails leaves nothing allocated.",
      ["fault_sequences", "inputs"],
      "every allocation of every big-integer, curve and public-key operation failing in turn",
      "the malloc mock is applied to four multiplication calls only.",
      [MPI + "mpi_core.c", MPI + "mpi_list.c", "src/ecp/ecp_list.c", "src/ecp/ecp_mul.c", MPI + "mpi_inv.c", "src/crypt/dsa.c", "src/crypt/ecdsa.c", "src/crypt/rsa.c", "src/crypt/memxor.c"],
      [("error propagation", "all of src/mpi, src/ecp"), ("rollback", MPI + "mpi_list.c, src/ecp/ecp_list.c")]),
    P("C28", "Contexts are independent and clearing wipes them",
      "Any interleaving of operations on several contexts of the same or different algorithms gives each context exactly the results it would give alone, and initialising or keying a context makes its results independent of what it held before. "
      "Clearing a context overwrites its key material and chaining state with zeros.",
      ["histories", "schedules"],
      "all interleavings of calls on several contexts, all previous contents of context memory",
      "every test uses one context at a time, freshly set up.",
      ["src/crypt/aes.c", "src/crypt/des.c", "src/crypt/cbc.c", "src/crypt/ctr.c", "src/crypt/gcm.c", "src/crypt/arc4.c", "src/crypt/trivium.c", "src/hash/sha256.c"],
      [("context-local state", "all contexts"), ("memset on clear", "clear functions")]),
]

NOT_CLAIMED = {}


def load_checks():
    """checks.json: property -> {technique, level, level_note}"""
    path = os.path.join(HERE, "lib", "checks.json")
    return json.load(open(path)) if os.path.exists(path) else {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = load_checks()
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [],
        "not_applicable": [],
    }
    for p in PROPS:
        i = p["id"]
        if i in checks:
            c = checks[i]
            man["checks"].append({
                "property": i,
                "quick_cmd": "python3 check.py %s" % i,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": c["technique"], "level": c["level"], "level_note": c["level_note"],
            })
        else:
            man["not_applicable"].append({"property": i, "reason": NOT_CLAIMED.get(i, "check not built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
