#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": None}})
def m(name, where): return {"name": name, "where": where}

HASH_SRC = ["src/hashes/md5.c", "src/hashes/md5-backend.c", "src/hashes/sha1.c", "src/hashes/sha224.c", "src/hashes/sha256.c",
            "src/hashes/sha384.c", "src/hashes/sha512.c", "src/hashes/sha2-backend.c", "src/hashes/sha3-224.c", "src/hashes/sha3-256.c",
            "src/hashes/sha3-384.c", "src/hashes/sha3-512.c", "src/hashes/keccak-backend.c", "src/hashes/templates.h"]

p("H01", "The twelve fixed-length hashes compute the published functions",
  "For every byte string, each of MD5, SHA-1, SHA-224/256/384/512, SHA-512/224, SHA-512/256 and SHA3-224/256/384/512 returns exactly the digest its standard defines (RFC 1321, RFC 3174/6234, FIPS 180-4, FIPS 202), whatever the message length relative to the block size, including the empty message and messages holding zero bytes.",
  ["inputs"], "every algorithm x every message: any length (all residues modulo the block, empty, many blocks) and any content",
  "The tests hash a few dozen fixed short strings per algorithm through a command line (no zero bytes, few lengths); the padding, length field and last-block logic depend on every length modulo the block size.",
  HASH_SRC, [m("compression functions and constant tables", "src/hashes/*-backend.c, sha1.c"), m("padding and length field", "sha1_padding, sha224n256_padding, sha384n512_padding, pgfe_md5_digest, keccak padding()")],
  ["pgfe_<hash>_encode output"])
p("H02", "A digest depends only on the bytes fed, not on how they are fed",
  "For every message and every way of feeding it - one call, the string and multi-part convenience functions, or a context updated with any sequence of pieces including empty ones - each hash and SHAKE variant returns the same digest as for the concatenation of the pieces. In the multi-part functions, and in updates of the MD5, SHA-1 and SHA-2 contexts, a null part is skipped and does not disturb the others.",
  ["inputs", "histories"], "all 16 algorithms x all messages x all partitions into pieces (empty pieces, pieces ending on and around block boundaries, many pieces) x all entry points",
  "Tests use one-shot calls and a handful of two-part calls; buffering bugs need particular piece lengths relative to what is already buffered.",
  HASH_SRC + ["src/hashes/shake.c"], [m("block buffering in the update functions", "pgfe_md5_update, SHA_UPDATE, sha384n512_update, keccak_absorb_b1600"), m("entry point templates", "src/hashes/templates.h FRONTEND_GEN2/GEN2_DEFAULT/GEN3")],
  ["pgfe_<hash>_update/_digest/_encode/_encode_default/_encode_multiple"])
p("H03", "SHAKE and RawSHAKE return the FIPS 202 output for any requested length",
  "For every message and every output length in bits, SHAKE128, SHAKE256, RawSHAKE128 and RawSHAKE256 write exactly the first that many bits of the sponge output FIPS 202 defines; when the length is not a multiple of eight, the last byte holds the remaining bits in its low-order positions and zeros above them. No byte after the last one is written.",
  ["inputs"], "4 functions x all messages x all output bit lengths (0, below/at/above the rate, several rates, not multiples of 8)",
  "Tests use a few fixed messages with one or two byte-aligned output lengths.",
  ["src/hashes/shake.c", "src/hashes/keccak-backend.c", "src/hashes/templates.h", "include/libpgfe/hashes/sha3.h"],
  [m("domain-separation suffix", "pgfe_*shake*_init"), m("padding and squeezing", "keccak_squeeze_b1600, padding()")], ["pgfe_*shake*_encode, _digest"])
p("H04", "Extendable output is one stream: prefixes agree and squeezing continues",
  "For every message, a shorter SHAKE/RawSHAKE output is a prefix of a longer one. Asking a context for output repeatedly returns consecutive pieces of that one stream, however the total is split into whole-byte requests (also empty ones).",
  ["inputs", "histories"], "4 functions x all messages x all sequences of whole-byte output requests",
  "No test asks a context for output twice, or compares outputs of different lengths.",
  ["src/hashes/shake.c", "src/hashes/keccak-backend.c"], [m("position in the squeezed block", "keccak_squeeze_b1600")], ["pgfe_*shake*_digest called repeatedly"],
  [{"name": "squeezable bits", "meaning": "unread part of the current output block", "where": "struct pgfe_keccak_sponge_ctx"}])
p("H05", "Very long messages and outputs are hashed in full",
  "The digest of a message of 512 MiB, 2 GiB or 4 GiB and more is the one the standard defines, whether the message comes in one call or in many, and for HMAC too. SHAKE outputs of 512 MiB and more are complete.",
  ["inputs"], "message sizes around 2^29, 2^31 and 2^32 bytes (bit counts around 2^32 and 2^35), single and split updates; outputs around 2^32 bits, 2^31 and 2^32 bytes",
  "No test feeds more than a few kilobytes; the 32-bit limits (bit counters, loop indices, truncated lengths) show only beyond 512 MiB.",
  HASH_SRC + ["src/hashes/shake.c", "src/hmac/hmac.c"], [m("64-bit bit counters", "len_low/len_high, block_len"), m("64-bit loop counters", "update functions, keccak_absorb_b1600, out_length")], ["digest of the long message"])
p("H06", "Hashing a stream covers exactly the bytes from its position to its end",
  "The stream entry point of every hash and SHAKE variant returns the digest of the bytes between the stream's current position and its end, for every length - also zero and multiples of the internal buffer size - and for regular files (also those that report no size), pipes, sockets and custom streams that deliver data in short reads. Where reading fails, the call ends too, with the digest of the bytes delivered before.",
  ["inputs", "histories"], "16 algorithms x stream contents of any length (0, around multiples of the 1024-byte buffer, large) x start positions x kinds of stream x short-read patterns",
  "Tests hash one or two small files from the start.",
  ["src/hashes/templates.h"] + HASH_SRC, [m("read loop", "pgfe_<hash>_encode_f in templates.h")], ["pgfe_<hash>_encode_f"])
p("H07", "The MD5, SHA-1 and SHA-2 functions ignore null contexts, inputs and outputs",
  "For MD5, SHA-1 and the SHA-2 hashes, initialising, updating or finishing a null context, updating with a null input and asking for a digest without an output do nothing and nothing bad, at any point of any history: computations in progress end with the right digest. In one call, a null input counts as empty whatever its length, and a null output gets nothing.",
  ["histories", "inputs"], "8 algorithms x null context, input or output x all positions in a sequence of updates x lengths",
  "No test passes a null pointer.",
  ["src/hashes/md5.c", "src/hashes/templates.h", "src/hashes/sha2-backend.c", "src/hashes/sha384.c", "src/hashes/sha512.c"], [m("null checks", "the first lines of pgfe_<hash>_init/_update/_digest")], ["pgfe_<hash>_init/_update/_digest/_encode..."])
p("M01", "HMAC is RFC 2104 HMAC for every key and message",
  "For each of the twelve fixed-length hashes, every key of any length (empty, shorter than, equal to and longer than the block, with zero bytes) and every message, the HMAC equals the RFC 2104 construction over the standard hash. The per-algorithm one-shot functions, the algorithm-selecting function and the context functions agree.",
  ["inputs"], "12 algorithms x all keys (all lengths, in particular around the block size) x all messages x 3 entry points",
  "Tests use a few short keys and messages; no key longer than the block.",
  ["src/hmac/hmac.c", "include/libpgfe/hmac/hmac.h"], [m("key preparation", "pgfe_hmac_<hash>_set_key"), m("inner/outer hash", "pgfe_hmac_<hash>_digest"), m("dispatch", "pgfe_hmac")], ["pgfe_hmac_<hash>, pgfe_hmac, pgfe_hmac_<hash>_digest"])
p("M02", "An HMAC context gives the MAC of what was fed since the key was set",
  "In any sequence of initialise, set-key, update and digest calls on HMAC contexts, each digest equals the RFC 2104 HMAC, under the last key set, of the concatenated updates since that key was set. Setting a key starts over whatever was fed before, and a context that was initialised but given no key behaves as with the empty key. A digest ends its message: the next one begins with setting a key.",
  ["histories"], "all call sequences (re-keying before and after digests, mid-message, long then short keys, empty updates) over 12 algorithms",
  "Tests run the single sequence init, set_key, update, digest.",
  ["src/hmac/hmac.c"], [m("pads stored in the context", "k_i_pad/k_o_pad"), m("restart of the inner hash", "pgfe_hmac_<hash>_set_key/_init")], ["pgfe_hmac_<hash>_digest after any history"])
p("O01", "HOTP codes are RFC 4226 codes for every counter and digit count",
  "For every secret, every 64-bit counter and every digit count from 1 up, the HOTP functions return the RFC 4226 value: dynamic truncation of the HMAC of the counter as eight big-endian bytes, modulo ten to the digit count; ten digits or more return the whole 31-bit value. This holds with SHA-1 (also the 4/6/8-digit shortcuts) and with the SHA-2 and SHA-3 hashes, and with MD5 where the truncation stays inside its 16 bytes.",
  ["inputs"], "all secrets x all 64-bit counters x digit counts 1..255 x hashes; MD5 only where its 16-byte MAC makes the truncation defined",
  "Tests use the RFC vectors: ten counters below 10, one secret length.",
  ["src/otp/hotp.c", "src/otp/otp-generic.c"], [m("counter encoding, truncation, modulus", "pgfe_hotp_generic, dynamically_truncate")], ["pgfe_hotp_generic, pgfe_hotp, pgfe_hotp_{4,6,8}digits"])
p("O02", "TOTP functions follow RFC 6238 at every time",
  "At every current time not before the start time, with any positive interval and start time, the TOTP functions return the HOTP code of the number of whole intervals elapsed since the start time (the Unix epoch in the shortcuts, which use SHA-1), also beyond 32-bit times. The reported delta is the number of seconds until the next code, between 1 and the interval; the output pointer may be null.",
  ["inputs"], "all (time, start, interval) with time >= start, times up to beyond 2^32, window edges; secrets; hashes; digits",
  "Tests only look at the current wall clock; window edges and far times are unreachable without controlling the clock.",
  ["src/otp/totp.c", "src/otp/totp-internal.c"], [m("window arithmetic", "calc_periodic_counter")], ["pgfe_totp_generic, pgfe_totp, pgfe_totp_{4,6,8}digits with a controlled clock"])
p("O03", "A TOTP object always shows the code of the present window",
  "In any history of clock movements (forwards, backwards, across window edges), interval, start-time and secret changes, each code a TOTP object generates - asked itself or through a base class - is the RFC 6238 code for the clock, interval, start time and secret at that moment. After a generation the remaining time is the number of seconds from now to the end of the window of that code, and the getters return what was set.",
  ["histories"], "all interleavings of clock steps with set_interval, set_initial_time, set_secret, generate, generate_str and the getters",
  "The object caches its counter; only histories with a controlled clock reach the cache decisions, and the tests generate once.",
  ["src/otp/totp.cpp", "src/otp/totp-internal.c", "src/otp/hotp.cpp"], [m("counter refresh", "TOTP::generate/update_counter")], ["TOTP::generate, generate_str, remaining_time, interval, initial_time"],
  [{"name": "cached counter and window end", "meaning": "state of the last refresh", "where": "class TOTP/HOTP"}])
p("O04", "OTP objects accept every secret form and print fixed-width codes",
  "An HOTP object returns the RFC 4226 code of its current counter (zero if never set) and of its last secret, whichever form gave it: bytes with length, C string, std::string, byte sequence or Base32 text in any letter case, padded or not, also written in groups. The printed code is the number left-padded with zeros to the requested digit count, and generating without any secret raises the not-initialised exception instead of a code.",
  ["inputs", "histories"], "all secrets (zero bytes, empty, long), all forms and their sequences, counters, digit counts, algorithms",
  "Tests set one secret in one form and read codes that rarely start with zero.",
  ["src/otp/hotp.cpp", "src/otp/abstract_otp.cpp", "include/libpgfe/otp/hotp.hpp"], [m("secret conversion", "HOTP::set_secret*, AbstractOTP::set_secret"), m("left padding", "AbstractOTP::generate_str")], ["HOTP::generate, generate_str"])
p("B01", "Base 16/32/32hex/64/64url encode every byte string as RFC 4648 says",
  "For every byte string, each encoder writes exactly the RFC 4648 text - upper-case alphabet for Base16/32, correct '=' padding determined by the input length alone - terminates it with a NUL, and returns its length.",
  ["inputs"], "5 encoders x all byte strings: all residues modulo the unit, trailing zero bits, zero bytes, large inputs; C functions and C++ objects",
  "Tests encode about ten short ASCII strings; padding mistakes need inputs whose last characters encode to zero bits.",
  ["src/base_encoding/base-encoding-internal.c", "src/base_encoding/base16.c", "src/base_encoding/base32.c", "src/base_encoding/base64.c"], [m("bit regrouping and padding", "transform, unittostr, encode_base_generic")], ["pgfe_encode_base*"])
p("B02", "Decoding an encoded byte string gives the byte string back",
  "For every byte string (also empty, or ending in or consisting of zero bytes) and each base, decoding its encoding returns exactly the original bytes and their count, in the C functions (which put a zero byte after them, so that decoded text is a C string) and in the C++ objects.",
  ["inputs"], "5 encodings x all byte strings x C and C++ interfaces",
  "Tests decode ten ASCII strings; zero bytes never occur in them.",
  ["src/base_encoding/base-encoding-internal.c", "src/base_encoding/abstract_base_encoding.cpp"], [m("length recovery", "decode_base_generic")], ["pgfe_decode_base*, Base16/Base32/Base64::decode"])
p("B03", "Decoders accept every accepted spelling of the same data",
  "Each decoder returns the same bytes when the text mixes letter case (Base16/32), uses the standard or the URL alphabet (Base64), lacks its final padding, or contains characters outside the alphabet (line breaks, spaces, punctuation) anywhere, which are ignored; a text without alphabet characters decodes to nothing.",
  ["inputs"], "5 decoders x all byte strings x all spellings: case masks, alphabet choice, padding stripped, noise inserted at any position (also after the end)",
  "Tests decode canonical text only.",
  ["src/base_encoding/base-encoding-internal.c", "src/base_encoding/base16.c", "src/base_encoding/base32.c", "src/base_encoding/base64.c"], [m("character classes", "decode_base*_char"), m("unit assembly", "decode_base_generic")], ["pgfe_decode_base*"])
p("B04", "A base codec object gives right answers throughout its life",
  "In any sequence of encode and decode calls on one Base16, Base32 or Base64 object, with inputs of any sizes in any order and in every accepted argument form, each call returns what a fresh object would: earlier calls never show through. The size getters and mode getters report the RFC 4648 parameters of the object.",
  ["histories"], "all call sequences with growing, shrinking and boundary sizes (around the internal buffer sizes) on each object kind",
  "Tests make one call per object; the objects keep growing internal buffers between calls.",
  ["src/base_encoding/abstract_base_encoding.cpp", "src/base_encoding/base16.cpp", "src/base_encoding/base32.cpp", "src/base_encoding/base64.cpp"], [m("buffer growth", "AbstractBaseEncoding::encode/decode")], ["Base*::encode/decode"],
  [{"name": "cached buffers and their sizes", "meaning": "reused between calls", "where": "AbstractBaseEncoding"}])
p("B05", "One base codec object can be shared by threads",
  "When several threads call encode and decode on the same Base16, Base32 or Base64 object at the same time, each call returns its own right result and there is no data race.",
  ["schedules"], "all interleavings of concurrent encode/decode calls with inputs of differing sizes on one shared object",
  "One test with 300 short-lived threads on Base64 with three short texts; it rarely overlaps and would not notice a benign-looking race.",
  ["src/base_encoding/abstract_base_encoding.cpp"], [m("mutual exclusion", "AbstractBaseEncoding::encode/decode")], ["results in each thread; ThreadSanitizer reports"])
p("F01", "Blowfish is the published cipher for every key and block",
  "For every key of 1 to 56 bytes (and longer keys, of which the first 72 bytes count) and every 64-bit block, encrypting a unit gives the block the published cipher defines, and decrypting a unit inverts it. Neither operation changes the key schedule, so units can be processed in any order.",
  ["inputs"], "all keys (all lengths, zero bytes, high bits set) x all 64-bit blocks, both directions, repeated use of one context",
  "Tests use a few published vectors, all with 8- or 24-byte keys.",
  ["src/fishes/blowfish.c"], [m("tables, key schedule, rounds", "pgfe_blowfish_init, pgfe_blowfish_encrypt_unit, pgfe_blowfish_decrypt_unit")], ["pgfe_blowfish_*_unit"])
p("F02", "Blowfish buffers are independent zero-padded big-endian blocks",
  "Encrypting or decrypting a buffer of any length processes each 8-byte group independently as one big-endian block, the last one filled up with zero bytes, writes exactly the padded length and returns it. Decrypting an encrypted buffer returns the original followed only by the zero filling.",
  ["inputs"], "all keys x all buffers of any length (0, 1..7 modulo 8, many blocks), both directions",
  "Tests process a few short buffers with one key.",
  ["src/fishes/blowfish.c"], [m("byte order and padding", "__blowfish_en_decrypt_generic")], ["pgfe_blowfish_encrypt/_decrypt output and return value"])
p("F03", "Blowfish objects equal the C functions for every argument form",
  "For every key and text, a Blowfish object built from bytes with length, C string, std::string or byte sequence encrypts and decrypts bytes, C strings, std::strings and byte sequences exactly as the C functions do on the same bytes - zero bytes included where the form carries a length - any number of times and also through the abstract cipher interface. A copy of an object encrypts as the original does, whatever becomes of that.",
  ["inputs", "histories"], "4 key forms x 4 text forms x both directions x all lengths, sequences of calls on one object",
  "Tests use printable text with one form; binary keys and lengths that are not multiples of eight are not exercised.",
  ["src/fishes/blowfish.cpp", "src/core/abstract_symmetric_crypter.cpp"], [m("forwarding and output buffers", "Blowfish::encrypt/decrypt")], ["Blowfish::encrypt/decrypt results"])
p("E01", "A HashEncoder gives the digest of what was fed since its last reset",
  "For every algorithm, in any sequence of updates in any argument form, resets and digest requests, the digest equals the standard digest of the bytes fed since construction or the last reset, also when the encoder is used through its abstract interface. A requested bit length selects the SHAKE output length (256 or 512 bits by default) or, for the fixed hashes, a prefix; the reported algorithm, digest size and block size are those of the algorithm. A digest ends its message, the next one begins with a reset; the returned sequence keeps its contents until the next digest is asked for. Moving an encoder elsewhere changes nothing of this.",
  ["histories", "inputs"], "16 algorithms x all histories of update(4 forms)/reset/get_digest with all bit lengths",
  "Tests construct, update once with a C string and read one digest.",
  ["src/hashes/hash_encoder.cpp", "include/libpgfe/hashes/hash_encoder.hpp", "include/libpgfe/abstract_encoder.hpp", "src/core/algorithm_selectable.cpp"], [m("context life cycle", "HashEncoder::reset/load_algorithm/destroy_context"), m("length selection", "HashEncoder::get_digest")], ["HashEncoder::get_digest, digest_size, block_size, algorithm"])
p("E02", "An HMACEncoder gives the MAC under its key since its last reset",
  "For each of the twelve hashes and each key form (bytes with length, C string, std::string, byte sequence; any length), in any sequence of updates in any argument form, resets and digest requests, the digest is the RFC 2104 HMAC of the bytes fed since construction or the last reset, also through the abstract interface. A digest ends its message, the next one begins with a reset; the returned sequence keeps its contents until the next digest is asked for. Moving an encoder elsewhere changes nothing of this. The reported algorithm, digest size and block size are those of the algorithm, whatever memory the object was built in.",
  ["histories", "inputs"], "12 algorithms x 4 key forms x all keys x all histories, objects built over arbitrary memory contents",
  "Tests build one encoder per algorithm with one key and one update, and never read the sizes.",
  ["src/hmac/hmac_encoder.cpp", "include/libpgfe/hmac/hmac_encoder.hpp", "src/core/algorithm_selectable.cpp"], [m("dispatch on the algorithm", "HMACEncoder methods"), m("algorithm selection", "AlgorithmSelectable::select_algorithm")], ["HMACEncoder::get_digest, digest_size, block_size, algorithm"])
p("U01", "Hexadecimal output and input of byte strings are exact inverses",
  "Every byte string is written as two lower-case hexadecimal digits per byte, NUL-terminated, with its length returned, and printing writes the same digits to standard output. Reading hexadecimal text in any letter case, with an optional 0x prefix, an h suffix and other characters between the digits, returns the bytes of its digits, an odd digit count giving a first byte of one digit; empty text gives nothing.",
  ["inputs"], "all byte strings; all texts: case masks, prefixes, suffixes, separators, odd and even digit counts, empty, large",
  "Tests convert three fixed strings.",
  ["src/core/utils.c", "src/core/utils.cpp", "src/core/sequential_data.cpp"], [m("conversion loops", "pgfe_hash_to_hex_string, pgfe_hex_string_to_hash, pgfe_print_hash, from_hex_string, hex_str")], ["outputs and return values"])
p("U02", "Cleaning a hexadecimal string keeps its digits, in place or not",
  "Cleaning any text removes a leading 0x/0X prefix and every character that is not a hexadecimal digit, keeps the digits in order and letter case, terminates the result and returns its length; doing it in place gives the same, and cleaning twice changes nothing more. The reported hash length is the number of bytes those digits denote (odd counts rounded up).",
  ["inputs"], "all texts (prefix, noise anywhere, empty, only noise, large) x in-place and out-of-place",
  "Tests clean four fixed strings.",
  ["src/core/utils.c"], [m("filter loop", "pgfe_hash_string_clean, pgfe_hash_string_clean_, pgfe_hash_length")], ["outputs and return values"])
p("U03", "Byte sequences behave as their bytes",
  "A byte sequence built from bytes with length, a C string, a std::string, another sequence (by reference, pointer or move) or the conversion helpers holds exactly those bytes, zero bytes included, and gives them back through its string, hexadecimal, raw and stream views. Trimming removes exactly the zero bytes at the chosen ends - in place or into a copy that leaves the original alone - including when everything is zero bytes.",
  ["inputs", "histories"], "all byte strings (zero bytes at either end, inside, only zeros, empty, large) x all constructors x all views x sequences of trims",
  "Tests print one sequence; zero bytes and trims are not tested.",
  ["src/core/sequential_data.cpp", "src/core/utils.cpp", "include/libpgfe/sequential_data.hpp"], [m("constructors, views, trims", "SequentialData")], ["contents after each operation"])
p("U04", "Algorithm names select the algorithm they name, with its sizes",
  "Every documented algorithm name, in lower case and in its canonical spelling, as C string, std::string or literal, selects that algorithm, and any other text raises an out-of-range error. The published size tables and constants agree with each other, with the encoders' getters and with the real digest length and HMAC block length.",
  ["inputs", "configurations"], "all 32 names x 3 lookup forms; arbitrary other strings; all 16 algorithms x all size sources",
  "Tests look names up only to run other tests; wrong table entries for rarely used algorithms go unseen.",
  ["include/libpgfe/generic.hpp", "src/core/generic.cpp", "include/libpgfe/hashes/sha2.h", "include/libpgfe/hashes/sha3.h", "include/libpgfe/hashes/md5.h", "include/libpgfe/hashes/sha1.h"], [m("tables", "pgfe_option_map, pgfe_digest_length, pgfe_block_length"), m("lookup", "_algstr")], ["_algstr results, table entries"])
p("X01", "Functions stay inside the memory they are given",
  "Every function of the library reads only the input bytes it was told of (or up to the terminating NUL) and changes only its documented output extent and context: inputs, keys and read-only contexts are left unmodified, bytes before and after the output stay untouched, for every length including zero and for unaligned buffers. Long inputs do not exhaust the stack.",
  ["inputs"], "every function x all lengths (0, boundaries, large) x buffer alignments, with inaccessible or patterned memory directly around each buffer",
  "Tests use roomy buffers and cannot see an out-of-bounds read or a stray write.",
  ["src/hashes", "src/hmac", "src/otp", "src/base_encoding", "src/fishes", "src/core"], [m("bounds of every copy loop", "all sources")], ["guard pages, canaries, AddressSanitizer"])
p("X02", "Computations do not influence each other",
  "Operations on distinct contexts and objects, interleaved in any order in one thread, running at the same time in several threads, or run by a signal handler between any two instructions of another (the C functions), each give the result they give alone. Copying a C context copies its computation: original and copy then continue independently.",
  ["histories", "schedules"], "all interleavings of several live computations of any kinds (hash, SHAKE, HMAC, OTP, base, Blowfish, hexadecimal), single- and multi-threaded; copies at any point; interruptions at any instruction by C functions",
  "Each test runs one computation in its own process.",
  ["src/hashes", "src/hmac", "src/otp", "src/base_encoding", "src/fishes", "src/core"], [m("no shared mutable state", "all state lives in caller-owned contexts and objects")], ["results of each computation; ThreadSanitizer reports"])
p("X03", "Results never depend on what memory held before",
  "Every function gives the same result whatever the stack, the heap, an uninitialised context, an object's storage or the output buffer contained before the call: initialisation sets everything that is used later.",
  ["inputs", "histories"], "every operation x all prior contents of context, output, stack and heap memory (constant patterns and random bytes)",
  "A test process starts with mostly zero memory, which hides missing initialisation.",
  ["src/hashes", "src/hmac", "src/otp", "src/base_encoding", "src/fishes", "src/core", "include/libpgfe"], [m("initialisers", "pgfe_*_init, constructors")], ["results under different prior memory contents"])
p("X04", "Programs may include any of the headers, in any order, from C and C++",
  "Every public header can be included alone, repeatedly and together with any others in any order, in C11, C17, C++14 and C++17, by gcc and clang. A program of several such files in C and C++ compiles and links, its files agree on the layout of every context and object they share, and each function, class, macro and constant it uses gives the right result wherever and in whatever expression it is used - also objects built before main, and whatever the program calls its own functions and variables, as long as no header declares these names.",
  ["inputs", "configurations"], "all programs of C and C++ files x all sequences of headers (of the library and the standard library) per file x language standards x compilers x uses of the declared functions, classes, macros and constants, with contexts and objects handed from file to file x names of functions and variables of the program's own",
  "Each test is one file with a fixed list of headers.",
  ["include/libpgfe"], [m("include guards, extern \"C\", each header's own includes", "every header")], ["compiler and linker exit status; results of the program"])
p("X05", "The same results on every data model and at every optimisation level",
  "Results do not depend on the platform or on how the library was compiled: with 32-bit size_t, long, time_t and pointers as with 64-bit ones, with unsigned plain char as with signed, compiled by gcc or clang, unoptimised or optimised for speed or size, every function and class computes what its specification says - also for 64-bit counters, for SHAKE outputs, and for messages of 2^32 bytes and more (given in several calls) where size_t cannot count them - and touches only the memory it should.",
  ["inputs", "histories", "configurations"], "the input domains of the other properties x (data model, signedness of char, compiler, optimisation level); little-endian only",
  "The tests are run in one build for one platform.",
  ["src/hashes", "src/hmac", "src/otp", "src/base_encoding", "src/fishes", "src/core", "include/libpgfe"], [m("fixed-width types for counters and words", "pgfe_word_t, pgfe_otp_counter_t, bit counts of the contexts"), m("comparison of chars", "decode_*_char, ch2hex")], ["every result of the library, in each build"])
p("X06", "Work grows in proportion to the data, and with nothing else",
  "The work of every operation is at most proportional to the bytes it is given or gives, and that of a sequence of calls to their number: no text, however it is made up, takes quadratic time. The work does not depend on the value of a counter, of the time, of the start time or the interval of one-time passwords, nor on how much data an object dealt with before.",
  ["inputs", "histories"], "all operations x sizes up to 256 KiB, contents, numbers of calls, counters, times, intervals, and earlier use of the object",
  "Tests use small inputs, for which no cost shows.",
  ["src/hashes", "src/hmac", "src/otp", "src/base_encoding", "src/fishes", "src/core"], [m("single passes over the data", "update, encode, decode, clean, trim functions"), m("closed form of the window number", "calc_periodic_counter")], ["executed basic blocks of the library, bytes touched by memory and string functions, bytes allocated"])
p("X07", "Objects do the same through their base classes, and give everything back",
  "An object of any class of the library does the same when it is used through a reference or pointer to any of its public base classes (AbstractEncoder, AbstractHashEncoder, AlgorithmSelectable, AbstractOTP, HOTP, AbstractSymmetricCrypter, AbstractBaseEncoding), const or not, as when it is used through its own class, and casts back lead to it. Destroying an object - also one of a class derived from it by the user - through a pointer to any of these classes runs its whole destructor once and gives back all memory its life has taken.",
  ["histories"], "all classes, constructors and histories of operations x the base class each operation and the destruction goes through x derived classes of the user",
  "The tests use local objects of the concrete classes only.",
  ["include/libpgfe/abstract_encoder.hpp", "include/libpgfe/algorithm_selectable.hpp", "include/libpgfe/abstract_symmetric_crypter.hpp", "include/libpgfe/base_encoding/abstract_base_encoding.hpp", "include/libpgfe/otp", "src/hashes/hash_encoder.cpp", "src/otp/totp.cpp"],
  [m("virtual functions and destructors", "the abstract classes and what overrides them"), m("ownership", "HashEncoder::destroy_context, unique_ptr members")], ["results through base classes; live allocations after destruction; destructors run"])
p("X08", "Outputs may take the place of inputs",
  "An output may lie, in whole or in part, over an input that the call has consumed: a digest, SHAKE output or HMAC over the message or the key it is computed from (as in iterated hashing), one-shot or through a context; encrypted or decrypted data in the same buffer; bytes decoded over their own base or hexadecimal text; and what an encoder object gave may be fed to it again. The result is the one with separate buffers.",
  ["inputs", "histories"], "all algorithms and call forms x positions of the output relative to message and key (same place, reaching in from either side, inside) x chains of rounds",
  "Tests give every output a buffer of its own.",
  ["src/hashes", "src/hmac", "src/base_encoding", "src/fishes", "src/core/utils.c", "src/hashes/hash_encoder.cpp", "src/hmac/hmac_encoder.cpp"], [m("order of reading and writing", "digest and encode functions, HMAC one-shots, decode loops"), m("ownership of the digest", "HashEncoder::get_digest")], ["contents of the shared buffer after each round"])
p("X09", "Results do not depend on the process's surroundings",
  "Every operation gives the same result whatever the state of the process around it is: the C locale (of the process or the thread) and the global C++ locale, with their characters, cases and numbers; the floating-point rounding mode, treatment of denormals and enabled floating-point traps; the value errno has before the call; environment variables such as TZ, LANG and LC_ALL; and whether the process, or the thread, is already ending (in exit handlers and destructors).",
  ["inputs", "histories", "configurations"], "all operations of the other properties x locales x C++ locale facets x rounding modes and traps x errno x environment variables; all kinds of computations in exit handlers and in destructors of thread-specific data",
  "Tests run in the C locale with the state a process starts with.",
  ["src/hashes", "src/hmac", "src/otp", "src/base_encoding", "src/fishes", "src/core", "include/libpgfe"], [m("characters", "ch2hex, decode_*_char, _algstr, trim functions"), m("sizes computed in floating point", "AbstractBaseEncoding::encode and decode"), m("numbers as text", "otp_to_string, AbstractOTP::generate_str, to_str")], ["results in plain and in generated surroundings"])
p("X10", "What only reads may be done by several threads at once",
  "Several threads may at the same time use one Blowfish context (encrypting and decrypting), read the same messages, keys, texts and tables, copy the same C context, call the const members of one SequentialData, HOTP or encoder object, look up algorithm names, and give one sequence to objects of their own. Each gets the result it would get alone, and what is shared is not written, not even for a moment. (A TOTP object, which follows the clock, and encryption objects are for one thread.)",
  ["schedules", "inputs"], "all read-only operations x 2 to 8 threads x lists of operations per thread, alike or mixed x contents",
  "The tests have one thread.",
  ["src/fishes/blowfish.c", "src/core", "src/hashes", "src/hmac", "src/base_encoding", "src/otp/hotp.cpp", "include/libpgfe"], [m("const", "const contexts, const members, static tables")], ["results in each thread; writes to read-only memory; ThreadSanitizer reports"])
p("D01", "Installing adds the library's files, and uninstalling removes only these",
  "Installing by `make install` or `scripts/deploy.py`, into any header and library directories, existing or not, puts there exactly the public headers - as a libpgfe directory with its sub-directories - and the shared library, with their present contents. Uninstalling in either way removes that libpgfe directory and that library and nothing else, also where they are not installed. In any sequence of installations, upgrades and removals no other file in these directories changes or vanishes, and the source tree's headers stay as they are.",
  ["histories", "configurations"], "all sequences of make install/uninstall, deploy.py/-u, changes of the library and its headers and of other files x several header and library directories (relative, absolute, missing, shared, with odd names for deploy.py)",
  "Nothing tests the installation; a wrong target can remove a system directory.",
  ["Makefile", "scripts/deploy.py"], [m("installation", "install, uninstall; main()")], ["files below the directories after each step; exit status"])
p("D02", "The version everywhere is the one of project.json",
  "For every project name and version (three numbers and an optional variant), scripts/update_meta.py makes version.h and metadata.mak carry exactly these - number by number, the variant and the whole - and leaves everything else alone; running it again changes nothing, and for the committed project.json it gives the committed files. A project.json without name or version, with a version that has no numbers, or that is no JSON is refused, with nothing written.",
  ["inputs"], "all names, versions and variants x old output files present, missing or longer x malformed project files",
  "Nothing tests the scripts; version.h is committed by hand.",
  ["scripts/update_meta.py", "scripts/version.h.template", "scripts/metadata.mak.in", "include/libpgfe/version.h", "metadata.mak", "project.json"], [m("version fields", "main()")], ["generated files; exit status"])
p("D03", "Adding comment headers completes source files once and changes nothing else",
  "For every source tree, scripts/comment_header.py puts the comment with the file's name before the text of each C and C++ file at the top and below include, src and test that does not begin with a comment, and leaves all other files as they are; a second run changes nothing. Given one file, it treats that one.",
  ["inputs", "histories"], "all trees of files and directories with any names and contents, once and twice",
  "Nothing tests the scripts, which rewrite the sources in place.",
  ["scripts/comment_header.py"], [m("choice of files, idempotence", "iter_dir, add_comment_header")], ["contents of all files"])
p("D04", "The library builds from its sources with nothing but CMake and a compiler",
  "With gcc or clang for either language, with any build type, generator, warning and optimisation options, the Linux clang toolchain file, or by make, in a directory of any name, in a fresh build directory or one that was configured otherwise before, the sources configure, compile and link without further options, and the libpgfe.so that this makes loads with all its symbols and gives the right results.",
  ["configurations", "inputs"], "all (build tool, C compiler, C++ compiler, build type, generator, compiler options, source and build directory, previous configuration) x uses of the library",
  "The tests run in one build, with one compiler and options of its own.",
  ["CMakeLists.txt", "cmake", "Makefile", "src", "include/libpgfe"], [m("each source file's own includes and declarations", "src, include"), m("targets", "cmake/targets/libpgfe.cmake, cmake/toolchains, Makefile")], ["exit status of cmake, make, compilers and linkers; the library's file; results of a program that loads it"])
p("A01", "An allocation failure is reported cleanly and leaves objects usable",
  "When a memory allocation fails inside any operation on the library's C++ objects, the operation raises std::bad_alloc and does nothing worse: the object can still be destroyed or reset, a later call works and returns the right result (no deadlock, no double free), an OTP object that could not take over a secret keeps the one it had, and nothing is leaked once the objects are gone. The one C function that allocates, pgfe_hash_length, returns zero when there is no memory.",
  ["fault_sequences", "histories"], "every allocation point of every C++ operation, in histories of operations before and after the failure",
  "No test makes an allocation fail.",
  ["src/base_encoding/abstract_base_encoding.cpp", "src/hashes/hash_encoder.cpp", "src/hmac/hmac_encoder.cpp", "src/otp/hotp.cpp", "src/fishes/blowfish.cpp", "src/core/sequential_data.cpp", "src/core/utils.cpp"], [m("RAII locks and owned buffers", "C++ sources")], ["exceptions, later results, allocation balance"])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
