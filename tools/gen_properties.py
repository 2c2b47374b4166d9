#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CH = "StreamCiphers/ChaCha/"; HC = "StreamCiphers/HC-128/"; RB = "StreamCiphers/Rabbit/"; SO = "StreamCiphers/Sosemanuk/"
AG = ["StreamCiphers/AEGIS/AEGIS/aegis_128.cpp", "StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp", "StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp"]
AGH = [f.replace(".cpp", ".h") for f in AG]
CT = ["BlockCiphers/AES/AES/AES_CTR/", "BlockCiphers/AES/AES_x86/AES_CTR/", "BlockCiphers/AES/AES_ARM/AES_CTR/"]
CF = ["BlockCiphers/AES/AES/AES_CFB/", "BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/", "BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/"]
ctf = [d + f for d in CT for f in ("aes_ctr.cpp", "aes_ctr.h", "tables.h")]
cff = [d + f for d in CF for f in ("aes_cfb.cpp", "aes_cfb.h", "tables.h")]

prop("C01", "ChaCha packets and blocks follow RFC 7539 for every key, nonce and length",
 "Processing a packet outputs the input XORed with the RFC 7539 ChaCha keystream for the loaded 256-bit key and 96-bit nonce, with the block counter starting at 1 at the beginning of every packet and increasing by one per 64 bytes, for every packet length including partial last blocks. The stand-alone block function produces the RFC 7539 block for every 32-bit counter value. The reduced-round builds (12 and 8 rounds) satisfy the same statement with that number of rounds.",
 ["inputs", "configurations"], "all keys, nonces, counters, packet contents; every packet length up to the bound; 20-, 12- and 8-round builds",
 "Tests run two RFC vectors of one block and one 114-byte packet plus round trips; a wrong partial-block path, a counter error beyond a few blocks or a key-dependent slip is untouched.",
 [CH+"chacha.cpp", CH+"chacha.h"], [("chacha_process_packet", CH+"chacha.cpp"), ("chacha_block / quarter round", CH+"chacha.cpp"), ("chacha_initialize", CH+"chacha.cpp")],
 [("cipher state words", "constants, key and nonce in RFC order", CH+"chacha.h")], ["output buffer of the packet call", "keystream words of the block call"])

prop("C02", "AES-128 key schedule and block encryption equal FIPS-197 in every build variant",
 "For every 128-bit key and every 128-bit input block, the expanded key schedule and the encrypted block equal FIPS-197 AES-128. This holds alike for the portable table build, the x86 AES-instruction build and the ARMv8 crypto-instruction build, in both the counter-mode and the feedback-mode library. The round-reduced build equals AES with that many of the rounds left out (the first middle rounds skipped, round keys otherwise unchanged).",
 ["inputs", "configurations"], "all keys x all blocks (2^256) per variant; portable, x86-intrinsics, ARM-intrinsics and round-reduced builds",
 "Tests compare three counter-mode vectors and round trips; round trips through CFB or CTR pass with any wrong block function because both directions use it.",
 ctf + cff, [("aes_encrypt", CT[0]+"aes_ctr.cpp"), ("aes_key_expansion / aes_load_key", CT[0]+"aes_ctr.cpp"), ("T-tables and round helpers", CT[0]+"tables.h"), ("aes_encrypt", CF[1]+"aes_cfb.cpp")],
 [("round keys", "44-word expanded key", CT[0]+"aes_ctr.h")])

prop("C03", "AES-CTR output equals SP 800-38A counter mode for every length and packet split",
 "Processing a packet outputs the input XORed, byte for byte in stream order, with AES-128 encryptions of successive counter blocks nonce||counter, the 32-bit big-endian counter starting at 1 when the nonce is loaded and increasing by one (mod 2^32) per block consumed, including the bytes of a partial last block. Consecutive packets without reloading the nonce continue with the next unused counter block.",
 ["inputs", "histories"], "all keys, nonces, contents; every packet length up to the bound, packet sequences, counters near every byte carry and the 32-bit wrap; three build variants",
 "The vectors have lengths that are multiples of four and counters below 4; partial words, counter carries over byte boundaries and multi-packet use are never run against a reference.",
 ctf, [("aes_ctr_process_packet", CT[0]+"aes_ctr.cpp"), ("aes_load_iv", CT[0]+"aes_ctr.cpp")],
 [("counter registers", "nonce and big-endian block counter", CT[0]+"aes_ctr.h")])

prop("C04", "AES-CFB output equals 128-bit cipher feedback for every packet length",
 "Each packet is processed as 128-bit CFB: the keystream of every block is the AES-128 encryption of the feedback register, output bytes are the input XORed with the keystream bytes in order, and the register afterwards holds the last sixteen bytes of the ciphertext stream (initialised by the IV), also after packets whose length is not a multiple of sixteen. Encryption and decryption both follow this rule.",
 ["inputs", "histories"], "all keys, IVs, contents; packet sequences with every combination of lengths up to the bound; both directions; three build variants and the round-reduced build",
 "The tests only check that decryption undoes encryption of random packets with the same code, so wrong byte order or a wrong feedback register after a partial packet passes.",
 cff, [("aes_cfb_process_packet", CF[0]+"aes_cfb.cpp"), ("partial_state_update", CF[0]+"aes_cfb.cpp"), ("full_state_update", CF[0]+"aes_cfb.cpp")],
 [("feedback register", "last 16 ciphertext bytes", CF[0]+"aes_cfb.h")])

prop("C05", "AES-CFB decryption undoes encryption and resynchronises after lost data",
 "For every sequence of packets, decrypting the ciphertexts in the same packet boundaries with a state initialised from the same key and IV returns the plaintexts. A receiver that starts from an arbitrary wrong register decrypts correctly every byte that follows at least sixteen consecutive correctly received ciphertext bytes ending at a packet boundary (self-synchronisation).",
 ["inputs", "histories", "fault_sequences"], "all keys, IVs, packet contents and split sequences within the bound; arbitrary receiver register contents",
 "The tests use one direction, equal states on both sides and a few random packets; loss of synchronisation is never exercised.",
 cff, [("aes_cfb_process_packet", CF[0]+"aes_cfb.cpp"), ("partial_state_update", CF[0]+"aes_cfb.cpp")],
 [("feedback register", "last 16 ciphertext bytes", CF[0]+"aes_cfb.h")])

prop("C06", "AEGIS-128 encryption produces the specified ciphertext and tag for all lengths",
 "For every key, IV, associated data and message, packet encryption produces exactly the AEGIS-128 ciphertext (same length as the message) and 16-byte tag of the CAESAR specification, for all associated-data and message lengths including zero and partial blocks. The portable, x86 and ARM builds all satisfy this.",
 ["inputs", "configurations"], "all keys, IVs, contents; all pairs of associated-data and message lengths up to the bound; three build variants",
 "Four published vectors cover lengths 0, 16 and 32 only; no partial block of message or associated data is compared with a reference.",
 AG + AGH, [("aegis_encrypt_packet", AG[0]), ("aegis_encrypt", AG[0]), ("aegis_process_ad", AG[0]), ("aegis_finalize", AG[0]), ("aegis_state_update", AG[0].replace("aegis_128.cpp", "aegis_128.h"))],
 [("five 128-bit state blocks", "AEGIS state", AGH[0])])

prop("C07", "AEGIS-128 decryption accepts exactly valid packets, never forged plaintext",
 "Packet decryption reports success exactly when the received 16-byte tag equals the AEGIS-128 tag of the recovered plaintext and the associated data, and then the output is the plaintext that encryption consumed. When any bit of the tag differs it reports failure and the plaintext output buffer contains only zero bytes.",
 ["inputs", "fault_sequences"], "all keys, IVs, associated data, ciphertexts and all 2^128 received tags; all length pairs up to the bound; three build variants",
 "Tests decrypt only untampered packets; no forged tag, ciphertext or associated data is ever presented, so a truncated or short-circuited comparison passes.",
 AG + AGH, [("aegis_decrypt_packet", AG[0]), ("aegis_decrypt", AG[0]), ("always_memset", AG[0])],
 [("five 128-bit state blocks", "AEGIS state", AGH[0])])

prop("C08", "HC-128 keystream equals its eSTREAM specification from setup to late steps",
 "After initialisation with any 128-bit key and IV, the packet output is the input XORed with the HC-128 keystream of the eSTREAM specification (32-bit little-endian words, 1024 initialisation steps), for every packet length including partial last words, through the change-over between the two tables at step 512 and the wrap at step 1024. Consecutive packets continue with the next unused keystream word.",
 ["inputs", "histories"], "all keys and IVs, all table contents reachable or not (arbitrary state), packet lengths up to the bound on either side of the step-512 and step-1024 boundaries",
 "Only encrypt/decrypt round trips are tested, which pass for any keystream at all.",
 [HC+"hc128.cpp", HC+"hc128.h"], [("hc128_initialize", HC+"hc128.cpp"), ("hc128_generate_keystream", HC+"hc128.cpp"), ("hc128_process_packet", HC+"hc128.cpp")],
 [("tables P and Q", "two 512-word secret tables", HC+"hc128.h")])

prop("C09", "Rabbit keystream equals RFC 4503 for every key, IV and length",
 "After loading any 128-bit key, optionally followed by any 64-bit IV, the packet output is the input XORed with the Rabbit keystream of RFC 4503 (its octet strings read in little-endian order, as the library documents) including the carry propagation of the counter system, for every packet length; consecutive packets continue with the next unused 16-byte block.",
 ["inputs", "histories"], "all keys, IVs, contents; packet lengths and packet sequences up to the bound; a step from an arbitrary internal state",
 "Round trips pass for any keystream; a carry condition that is wrong for one value in 2^32 is never hit by sampling.",
 [RB+"rabbit.cpp", RB+"rabbit.h"], [("rabbit_load_key", RB+"rabbit.cpp"), ("rabbit_load_iv", RB+"rabbit.cpp"), ("next state / counter update", RB+"rabbit.cpp"), ("rabbit_process_packet", RB+"rabbit.cpp")],
 [("X, C and carry", "inner state, counters and counter carry", RB+"rabbit.h")])

prop("C10", "Re-initialising a cipher or hash object makes its output independent of past use",
 "After a key and IV (nonce) are loaded into a state object, all later output depends only on that key, that IV and the data processed since: it is the same for a fresh object and for one that has previously been used with any keys, IVs and packets. Where the IV alone is reloaded, the result depends only on the key loaded last and the new IV.",
 ["histories", "inputs"], "all earlier uses of the object up to the stated histories and, beyond them, all byte contents the object may hold before initialisation; all keys, IVs and packets, for ChaCha, HC-128, Rabbit, Sosemanuk, AES-CTR, AES-CFB, AEGIS, HMAC, MD5 and DES",
 "Tests use each object once after declaring it; stale state (a carry bit, a partially reset register, uninitialised memory) shows only in particular histories.",
 [CH+"chacha.cpp", HC+"hc128.cpp", RB+"rabbit.cpp", SO+"sosemanuk.cpp", AG[0], CT[0]+"aes_ctr.cpp", CF[0]+"aes_cfb.cpp", "Authentication/HMAC-SHA-256/hmac.cpp", "Legacy/MD5/md5.cpp", "Legacy/DES/des.cpp"],
 [("*_initialize / *_load_key / *_load_iv", "all cipher directories"), ("rabbit_load_iv", RB+"rabbit.cpp"), ("MD5Init", "Legacy/MD5/md5.cpp")])

prop("C11", "Serpent key schedule and block encryption follow the Serpent specification",
 "For every key length up to 32 bytes (shorter keys padded by a single one bit and zeros) the 25 subkeys that the library keeps, and for every block the cipher states it hands out after rounds 12, 18 and 24 (the last with the final key mixed in), equal the Serpent specification in bitslice order; this is the Serpent component as the library builds it, in both copies. The stand-alone S-box call equals Serpent's S-box 2.",
 ["inputs"], "all keys of each length, all 128-bit blocks",
 "No test runs the Serpent code against any vector; Sosemanuk is only round-trip tested.",
 ["BlockCiphers/Serpent/serpent.cpp", "BlockCiphers/Serpent/serpent.h", SO+"serpent.cpp", SO+"serpent.h"],
 [("serpent_key_schedule", SO+"serpent.cpp"), ("S-box macros and linear transform", SO+"serpent.h"), ("serpent_process_packet", SO+"serpent.cpp")])

prop("C12", "Sosemanuk keystream equals its eSTREAM specification for every key and IV",
 "After loading any key (16 to 32 bytes) and any 128-bit IV, the packet output is the input XORed with the Sosemanuk keystream of the eSTREAM specification for every packet length, and consecutive packets start at the next unused 16-byte keystream block.",
 ["inputs", "histories"], "all keys, IVs, contents; lengths up to the bound; one step from an arbitrary internal state",
 "Round trips pass for any keystream; no vector is tested.",
 [SO+"sosemanuk.cpp", SO+"sosemanuk.h", SO+"serpent.cpp"],
 [("sosemanuk_load_key", SO+"sosemanuk.cpp"), ("sosemanuk_load_iv", SO+"sosemanuk.cpp"), ("sosemanuk_process_packet", SO+"sosemanuk.cpp"), ("mul/div alpha tables", SO)],
 [("s, R1, R2", "LFSR and FSM registers", SO+"sosemanuk.h")])

prop("C13", "SHA-256 digests equal FIPS 180-4 for every message of every length",
 "The 32-byte digest equals FIPS 180-4 SHA-256 of the message for every length, in particular for every residue modulo 64 around the padding boundaries, in both copies of the hash in the repository.",
 ["inputs"], "all message contents for every length up to the bound (all residues mod 64, several blocks); 64-bit length field for large lengths",
 "One message (a million 'a's) is tested, with one length residue; the padding branch for other residues is not reached.",
 ["Hash/SHA/SHA-2/SHA-256/sha-256.cpp", "Hash/SHA/SHA-2/SHA-256/sha-256.h", "Authentication/HMAC-SHA-256/sha-256.cpp"],
 [("sha256_process_message", "Hash/SHA/SHA-2/SHA-256/sha-256.cpp"), ("pad_message", "Hash/SHA/SHA-2/SHA-256/sha-256.cpp"), ("compression", "Hash/SHA/SHA-2/SHA-256/sha-256.cpp")])

prop("C14", "HMAC tags equal RFC 2104 HMAC-SHA-256 truncated to the requested length",
 "For every key length (including keys longer than the block size, which are hashed first), every message including the empty one, and every tag length from 1 to 32, the generated tag is the leftmost bytes of HMAC-SHA-256(key, message) and exactly that many bytes are written.",
 ["inputs"], "all key and message contents; all key lengths, message lengths and tag lengths up to the bound",
 "One vector with one key length is tested.",
 ["Authentication/HMAC-SHA-256/hmac.cpp", "Authentication/HMAC-SHA-256/hmac.h", "Authentication/HMAC-SHA-256/sha-256.cpp"],
 [("hmac_load_key", "Authentication/HMAC-SHA-256/hmac.cpp"), ("hmac_tag_generation", "Authentication/HMAC-SHA-256/hmac.cpp")],
 [("inner/outer key", "key XOR ipad / opad", "Authentication/HMAC-SHA-256/hmac.h")])

prop("C15", "HMAC validation accepts a tag if and only if every tag byte is correct",
 "Tag validation returns 1 exactly when the presented tag equals, in all its bytes, the tag that generation yields for the same key, message and tag length, and 0 otherwise, for every message including the empty one.",
 ["inputs", "fault_sequences"], "all keys, messages and all received tags (2^(8t)); tag lengths 1 to 32",
 "Tests validate one genuine tag and never a forged one; a comparison that stops early or ignores a byte passes.",
 ["Authentication/HMAC-SHA-256/hmac.cpp"], [("hmac_tag_validation", "Authentication/HMAC-SHA-256/hmac.cpp")])

prop("C16", "MD5 digests equal RFC 1321 for every message, fed whole or in pieces",
 "The MD5 digest equals RFC 1321 for every message of every length, and feeding the same message through any sequence of update calls, including empty ones and pieces that straddle the 64-byte block, gives the same digest.",
 ["inputs", "histories"], "all contents; every total length up to the bound and every split into up to three pieces of the bounded lengths; bit counter carries",
 "One 14-byte message is tested in a single call.",
 ["Legacy/MD5/md5.cpp", "Legacy/MD5/md5.h"], [("MD5Init/MD5Update/MD5Final", "Legacy/MD5/md5.cpp"), ("MD5_process_packet", "Legacy/MD5/md5.cpp"), ("MD5Transform", "Legacy/MD5/md5.cpp")],
 [("context", "chaining values, bit count and partial block", "Legacy/MD5/md5.h")])

prop("C17", "DES block encryption and key schedule equal FIPS 46-3",
 "For every 64-bit key and every 64-bit block, encryption with the encryption schedule equals DES of FIPS 46-3, and the same block function with the decryption schedule is its inverse.",
 ["inputs"], "all keys x all blocks",
 "The DES programs are compiled but no test runs them.",
 ["Legacy/DES/des.cpp", "Legacy/DES/des.h"], [("des_key_schedule_encrypt/decrypt", "Legacy/DES/des.cpp"), ("des_ecb_block", "Legacy/DES/des.cpp"), ("DES_ROUND, SP boxes", "Legacy/DES/des.h")])

prop("C18", "DES packet modes: ECB inverts block-wise, CTR never repeats keystream",
 "ECB packet processing applies the block cipher independently to each 8-byte block, so decrypting with the decryption schedule returns the packet. Counter-mode packet processing XORs the input with the DES encryptions of the counter blocks nonce, nonce+1, nonce+2, ... (the first eight bytes of the nonce, counted up as one 64-bit big-endian number, modulo 2^64), so processing the result again with the same key and nonce returns the input and no two blocks of a packet share keystream.",
 ["inputs"], "all keys, nonces and contents; packet lengths up to the bound",
 "No DES test exists.",
 ["Legacy/DES/des.cpp"], [("des_process_packet_ecb", "Legacy/DES/des.cpp"), ("des_process_packet_ctr", "Legacy/DES/des.cpp")])

prop("C19", "Hex encoding is exact and decoding inverts it for every byte string",
 "Encoding writes two uppercase hexadecimal digits per byte in order followed by a terminating NUL, and decoding the digits returns the original bytes, for every byte string and length.",
 ["inputs"], "all byte strings up to the bound (each byte symbolic)",
 "Hex output is only used to print in the test programs; no test compares a decode with its source over all byte values.",
 ["Encoders/Hex/encoder.cpp", "Encoders/Hex/encoder.h"], [("hex_encode", "Encoders/Hex/encoder.cpp"), ("hex_decode", "Encoders/Hex/encoder.cpp")])

prop("C20", "Packet, key and tag calls stay inside the caller's buffers at every length",
 "For every length argument, each call of the symmetric-key part (ciphers, hashes, authentication, hex encoder) reads and writes only inside the buffers of the lengths the caller passed and inside its own state object, never reads memory that nobody initialised, never performs an undefined operation (over-wide shift, bad pointer), and releases what it allocates exactly once.",
 ["inputs"], "every length up to the bound for every packet, hash, tag, encode and key-loading call of the library, with arbitrary contents, buffers allocated at exactly the documented size",
 "Tests run fixed lengths with generous stack buffers and without sanitizers, so small over-reads and over-writes go unseen.",
 sorted(set([CH+"chacha.cpp", HC+"hc128.cpp", RB+"rabbit.cpp", SO+"sosemanuk.cpp"] + AG + [d+"aes_ctr.cpp" for d in CT] + [d+"aes_cfb.cpp" for d in CF] + ["Hash/SHA/SHA-2/SHA-256/sha-256.cpp", "Authentication/HMAC-SHA-256/hmac.cpp", "Legacy/MD5/md5.cpp", "Legacy/DES/des.cpp", "Encoders/Hex/encoder.cpp"])),
 [("*_process_packet tail handling", "all cipher directories"), ("pad_message / sha256_process_message", "Hash/SHA/SHA-2/SHA-256/sha-256.cpp"), ("aegis_encrypt / aegis_decrypt", AG[0])])

prop("C21", "Calls leave inputs, keys, nonces and unrelated memory unchanged",
 "With non-overlapping buffers, no call modifies its key, IV, nonce, message, ciphertext or associated-data inputs (the one documented exception: a failed AEGIS decryption clears the received tag), and output calls write exactly the announced number of bytes.",
 ["inputs", "histories"], "all contents and every length up to the bound for every packet, hash and tag call",
 "Tests never look at the input buffers or at the bytes behind the outputs after a call.",
 sorted(set([CH+"chacha.cpp", HC+"hc128.cpp", RB+"rabbit.cpp", SO+"sosemanuk.cpp"] + AG + ["Legacy/DES/des.cpp", "Legacy/MD5/md5.cpp", "Authentication/HMAC-SHA-256/hmac.cpp"])),
 [("*_process_packet", "all cipher directories"), ("des_process_packet_ctr", "Legacy/DES/des.cpp"), ("hmac_tag_validation", "Authentication/HMAC-SHA-256/hmac.cpp")])

prop("C22", "Two ends of a stream cipher stay in step over every packet sequence",
 "For each synchronous stream cipher in the repository (ChaCha, HC-128, Rabbit, Sosemanuk, AES-CTR), when sender and receiver load the same key and nonce and process the same packet boundaries, the receiver recovers every packet, and in-place processing gives the same result as separate buffers.",
 ["inputs", "histories"], "all keys, nonces, contents; packet-length sequences up to the bound, both in place and out of place",
 "Tests make one or a few round trips with fixed lengths and separate buffers.",
 [CH+"chacha.cpp", HC+"hc128.cpp", RB+"rabbit.cpp", SO+"sosemanuk.cpp"] + [d+"aes_ctr.cpp" for d in CT],
 [("*_process_packet", "all stream cipher directories")])

prop("C23", "Portable, x86 and ARM builds of a cipher are interchangeable byte for byte",
 "For AES-CTR, AES-CFB and AEGIS-128, the portable, x86-instruction and ARMv8-instruction builds produce identical ciphertexts, tags and decryption results for identical keys, IVs and packet sequences, so that a packet produced by one build is accepted and recovered by another.",
 ["inputs", "configurations", "histories"], "all keys, IVs, contents; packet-length sequences up to the bound; every pair of builds",
 "Each build is tested only against itself; no test exchanges packets between builds, and none uses partial blocks across packets.",
 AG + [d+"aes_ctr.cpp" for d in CT] + [d+"aes_cfb.cpp" for d in CF],
 [("three implementations of each mode", "BlockCiphers/AES/*, StreamCiphers/AEGIS/*"), ("partial_state_update", CF[1]+"aes_cfb.cpp")])

JL = "AsymmetricCryptography/Joye_libert/"; LH = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/"
prop("C24", "Joye-Libert decryption recovers every message for every key and randomness",
 "For every key pair satisfying the key-generation conditions, every message in [0, 2^k) and every encryption randomness coprime to the modulus, decrypting an encryption of the message returns it, and the ciphertext lies in [0, N).",
 ["inputs"], "all messages and all randomness for each bounded key; message widths up to the bound; all secret exponents in the exponent abstraction",
 "The tests encrypt two or three fixed values with one key.",
 [JL+"joye_libert.cpp", JL+"joye_libert.h"], [("joye_libert_encrypt", JL+"joye_libert.cpp"), ("joye_libert_decrypt", JL+"joye_libert.cpp")])

prop("C25", "Multiplying Joye-Libert ciphertexts adds the messages modulo the message space",
 "The product modulo N of two (or more) ciphertexts under the same key decrypts to the sum of the messages modulo 2^k, and raising a ciphertext to a constant decrypts to the constant times the message modulo 2^k.",
 ["inputs"], "all message pairs, randomness and constants for each bounded key",
 "One addition of two fixed values is tested.",
 [JL+"joye_libert.cpp"], [("joye_libert_encrypt / joye_libert_decrypt", JL+"joye_libert.cpp")])

prop("C26", "Joye-Libert key generation returns only keys meeting the scheme's conditions",
 "Whatever the random source delivers, key generation returns N = p*q with p prime and congruent to 1 modulo 2^k such that (p-1)/2^k is prime, q prime and congruent to 3 modulo 4, and y in [0, N) a quadratic non-residue modulo both p and q.",
 ["inputs", "fault_sequences"], "all outcomes of the random source and of the primality and residue oracles, up to a bounded number of loop iterations",
 "Tests use the one fixed default seed, so one key per size is ever generated.",
 [JL+"joye_libert.cpp"], [("joye_libert_keygen", JL+"joye_libert.cpp")])

prop("C27", "Labeled encryption decrypts to the message with a mask fixed by stream and label",
 "Labeled encryption of a message returns a pair (message minus mask modulo 2^k, encryption of the mask) which decrypts to the message; the mask b handed back is the XOR of the label bytes (zero-extended to the message width) with the next keystream bytes of the given cipher state, and depends on nothing else.",
 ["inputs", "histories"], "all messages, labels shorter than or equal to the message width, keystreams and randomness; message widths within the bound",
 "The tests use one or two fixed labels and check the recovered value only; a mask that depends on stale memory still decrypts.",
 [LH+"labeled_he.cpp", LH+"labeled_he.h"], [("he_encrypt", LH+"labeled_he.cpp"), ("he_decrypt", LH+"labeled_he.cpp")])

prop("C28", "Labeled homomorphic operations decrypt to the corresponding function of messages",
 "Evaluating addition, subtraction, multiplication by a constant, multiplication of two and of three labeled ciphertexts, and addition or subtraction of product ciphertexts, then decrypting with the mask function of the same program, returns the corresponding sum, difference or product of the messages modulo 2^k, also when the result of an addition, subtraction or multiplication by a constant replaces one of its operands.",
 ["inputs", "histories"], "all messages, masks, randomness and constants modulo 2^k for each operation; message widths up to the bound",
 "Each operation is tested on one fixed pair of small messages.",
 [LH+"labeled_he.cpp"], [("he_eval_add / sub / cmult / mult / mult_3", LH+"labeled_he.cpp"), ("he_decrypt", LH+"labeled_he.cpp")])

prop("C29", "The authenticated-encryption example decrypts nothing when a tag is invalid",
 "In the Encrypt-then-MAC example program, when the validation of a received message reports an invalid tag the program stops without decrypting or printing any plaintext of that message, and when all tags are valid it recovers both plaintexts; the tag of the second section covers the IV and the ciphertext.",
 ["inputs", "fault_sequences"], "all outcomes of each tag validation in the program",
 "The test run never presents an invalid tag, so the rejecting branch is not executed.",
 ["Example_AuthenticatedEncryption/example_ae.cpp"], [("main, sections 1 and 2", "Example_AuthenticatedEncryption/example_ae.cpp")])

prop("C30", "Poly1305 one-time authenticator computes RFC 7539 tags",
 "The one-time authenticator computes the RFC 7539 Poly1305 tag of every message for every 256-bit one-time key.",
 ["inputs"], "all keys and messages",
 "The directory holds an unfinished fragment that no build compiles and no test runs.",
 ["Authentication/Poly1305/poly1305.cpp"], [("poly1305", "Authentication/Poly1305/poly1305.cpp")])

prop("C31", "Multi-user labeled encryption supports the single-user operations",
 "The multi-user variant of the labeled homomorphic scheme encrypts, evaluates and decrypts like the single-user variant for ciphertexts of several users.",
 ["inputs"], "all messages, labels, users and operations",
 "Neither its sources nor its program compile at this commit, so nothing runs.",
 ["AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp"], [("mu_he_*", "AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
