"""Writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": None}})

A = "src/age/"
prop("C01", "Payload encryption round-trips at every length",
 "For every 32-byte payload key and every plaintext of any length (including empty, exact multiples of 64 KiB and one byte either side), decrypting the encrypted payload with the same key returns exactly the plaintext. The encrypted payload is the plaintext cut into 64 KiB chunks, each 16 bytes longer than its plaintext, with exactly one final chunk that is empty only when the whole plaintext is empty.",
 ["inputs"], "all keys, all plaintext contents, all plaintext lengths",
 "One test encrypts one random 100 KiB buffer; lengths at and around chunk boundaries, more than two chunks and the empty plaintext are never tried, and no finite set of buffers covers every length.",
 [A+"stream.py"], [("chunking and last-chunk computation", A+"stream.py:stream_encrypt/stream_decrypt/_chunk")],
 ["return value of stream_encrypt and stream_decrypt"])

prop("C02", "A modified payload is never accepted",
 "Decrypting anything other than the exact encrypted payload of a message fails: truncation at any byte or chunk boundary (down to nothing at all), extension, dropping, duplicating, reordering, altering chunks or splicing in chunks of another message (every message has its own payload key) must all raise. Decryption under a different key fails as well.",
 ["inputs", "fault_sequences"], "all messages, all modifications of their encrypted payload",
 "No test ever modifies a payload, so the truncation and reordering protection that the chunk counter and last-chunk flag exist for is untested.",
 [A+"stream.py", A+"file.py"], [("per-chunk nonce with counter and last flag, AEAD tag", A+"stream.py:_pack_nonce/stream_decrypt")],
 ["return value or exception of stream_decrypt / Decryptor"])

prop("C03", "No nonce is reused within a payload and counters never wrap",
 "Within one payload every chunk is sealed under the nonce made of an 11-byte big-endian counter, which starts at zero and grows by one per chunk, followed by one byte that is 1 for the final chunk and 0 for every other chunk. Two chunks never share a nonce, and a counter that does not fit 11 bytes (or is negative) is refused rather than wrapped.",
 ["inputs"], "all plaintext lengths, all chunk counters and flags",
 "The tests pack six concrete nonces; uniqueness over 2^88 counters and the flag on every chunk of every message length are universally quantified.",
 [A+"stream.py"], [("nonce packing", A+"stream.py:_pack_nonce"), ("last_block computation", A+"stream.py:stream_encrypt")],
 ["nonces passed to the AEAD"])

prop("C04", "A written header is read back identically",
 "For every list of recipient stanzas (type, arguments, base64 body of any length, including none) and every 32-byte MAC, parsing the serialised header yields the same stanzas in the same order and the same MAC. The serialised header consists of newline-terminated lines, body lines are at most 64 characters, and after parsing, the stream stands exactly at the first payload byte.",
 ["inputs"], "all stanza lists, body lengths and contents, MACs, payloads",
 "One test parses one fixed header and looks at three type names; it never serialises, and body lengths at multiples of 64, empty bodies and payload positioning are not exercised.",
 [A+"format.py", A+"primitives/encode.py"], [("header writer with 64-column wrapping", A+"format.py:dump_header"), ("header parser", A+"format.py:load_header")],
 ["load_header(dump_header(h))"])

prop("C05", "A tampered header is rejected",
 "For every encrypted file, if any header byte before the MAC is changed, removed or inserted (version line, stanza type, arguments, body, white space, line structure, whole stanzas added, dropped, duplicated, swapped or merged), or if the MAC value is changed, decryption fails for every identity. No plaintext is released from such a file.",
 ["inputs", "fault_sequences"], "all files, all header modifications",
 "No test tampers with a header or a MAC; the space of modifications is unbounded and several need a specific layout (for example a body that exactly fills its last line).",
 [A+"file.py", A+"format.py", A+"primitives/hmac.py"], [("header MAC verification", A+"file.py:Decryptor._decrypt_header")],
 ["exception or plaintext from Decryptor"])

prop("C06", "The header parser accepts only complete, well-formed headers",
 "For arbitrary input bytes the header parser either raises or returns, and it returns only if the first line is the version line and a footer line '--- <MAC>' ends the header. The returned stanzas are exactly the '->' lines before the footer, each with a non-empty type and the white-space separated arguments of that line, with the concatenated stripped lines that follow it as body. The MAC returned is the one on the footer line, and nothing after that line is consumed.",
 ["inputs"], "all byte strings",
 "The only parser test feeds one well-formed file; malformed, truncated and adversarial headers are a byte-string universe.",
 [A+"format.py"], [("line-oriented parser", A+"format.py:load_header")], ["load_header on untrusted bytes"])

prop("C07", "An X25519 stanza opens for its identity and for no other",
 "For every X25519 key pair and file key, wrapping the file key to the public key and unwrapping it with the private key gives the file key back, also after the stanza is written to and read from text. A different identity, or a stanza whose ephemeral share or wrapped key was altered, is rejected.",
 ["inputs"], "all key pairs, file keys, ephemeral secrets, alterations",
 "One test wraps and unwraps one random key with the right identity; wrong identities are tried once and altered stanzas never.",
 [A+"algorithms/x25519.py", A+"recipients/x25519.py", A+"primitives/x25519.py"], [("ECDH + HKDF with both shares in the salt", A+"algorithms/x25519.py"), ("stanza text form", A+"recipients/x25519.py")],
 ["wrap/unwrap result"])

prop("C08", "A passphrase stanza opens only for its passphrase, within the cost limit",
 "For every passphrase, file key and admissible work factor, wrapping and unwrapping with the same passphrase gives the file key back, also through the stanza's text form; another passphrase, salt, work factor or wrapped key is rejected. A work factor below 0 or above 22 is refused, on wrapping and on unwrapping, before any key derivation is run. (The passphrase is an HMAC key inside scrypt, so trailing NUL bytes and the hashing of passphrases above 64 bytes do not distinguish passphrases; work factor 0 is refused by the scrypt library.)",
 ["inputs"], "all passphrases, salts, file keys, work factors",
 "Tests try one random passphrase at cost 16 and two bad costs; the limit must hold for every attacker-chosen number and the derivation must not start first.",
 [A+"algorithms/scrypt.py", A+"recipients/scrypt.py", A+"primitives/scrypt.py"], [("cost guard before derivation", A+"algorithms/scrypt.py"), ("stanza text form", A+"recipients/scrypt.py")],
 ["wrap/unwrap result", "calls to the scrypt primitive"])

prop("C09", "An ssh-rsa stanza opens for its RSA key and for no other",
 "For every RSA key pair and file key, wrapping to the public key and unwrapping with the private key gives the file key back, also through the stanza's text form. A stanza carrying another key's fingerprint, or presented to another private key, or with an altered body is rejected.",
 ["inputs"], "all key pairs, file keys, fingerprints, alterations",
 "Tests use two generated keys and one bad fingerprint; altered bodies and the text form are not tested.",
 [A+"algorithms/ssh_rsa.py", A+"recipients/ssh_rsa.py", A+"primitives/rsa_oaep.py", A+"keys/rsa.py"], [("fingerprint check and OAEP label", A+"algorithms/ssh_rsa.py"), ("stanza text form", A+"recipients/ssh_rsa.py")],
 ["wrap/unwrap result"])

prop("C10", "An ssh-ed25519 stanza opens for its Ed25519 key and for no other",
 "For every Ed25519 key pair and file key, wrapping to the public key (converted to Curve25519 and tweaked) and unwrapping with the private key gives the file key back, also through the stanza's text form, and converting the private and the public half agree. A stanza for another key, with another fingerprint, or with an altered share or wrapped key is rejected.",
 ["inputs"], "all key pairs, file keys, ephemeral secrets, alterations",
 "Tests use generated keys and one bad fingerprint; the agreement of the two conversions and of the tweaked key agreement is an algebraic identity over all keys.",
 [A+"algorithms/ssh_ed25519.py", A+"recipients/ssh_ed25519.py", A+"keys/ed25519.py"], [("tweaked key agreement", A+"algorithms/ssh_ed25519.py"), ("stanza text form", A+"recipients/ssh_ed25519.py")],
 ["wrap/unwrap result"])

prop("C11", "One matching identity always suffices, none is rejected",
 "For every list of well-formed stanzas and every collection of identities, in whatever order and mix of kinds, the file key is recovered if at least one identity matches one stanza: non-matching stanzas, non-matching identities of the same or another kind, and stanzas of unknown type never get in the way. If no identity matches, a no-identity error is raised and no key is returned.",
 ["inputs", "configurations"], "all stanza lists and identity collections, all orders",
 "Tests use a single X25519 stanza with zero or one identity; mixes of kinds and orders, which is what users with SSH and age keys have, are never combined.",
 [A+"recipients/helpers.py", A+"file.py"], [("trial decryption over stanzas and identities", A+"recipients/helpers.py:decrypt_file_key"), ("unknown stanza types skipped", A+"file.py:Decryptor._decrypt_header")],
 ["decrypt_file_key result", "Decryptor result"])

prop("C12", "What is encrypted to recipients is what each of them decrypts",
 "For every non-empty list of recipients of any kind, every plaintext and every way of splitting it into write calls, each recipient's identity decrypts the file to exactly that plaintext, whatever sequence of read sizes is used. Reading past the end returns nothing more, and closing an encryptor twice changes nothing.",
 ["inputs", "histories"], "all recipient lists, plaintexts, write and read histories",
 "The file-level test file is commented out; one CLI test compares one fixed ciphertext and the decrypt tests do not run here.",
 [A+"file.py", A+"format.py", A+"stream.py", A+"recipients/helpers.py"], [("buffering writer", A+"file.py:Encryptor"), ("reader", A+"file.py:Decryptor")],
 ["bytes written by Encryptor, bytes read from Decryptor"], [{"name": "plaintext buffer", "meaning": "everything written so far", "where": A+"file.py:Encryptor"}])

prop("C13", "Every encryption uses fresh secrets and never leaks them",
 "Every encryption draws from the operating system's random source a new 16-byte file key, a new 16-byte payload nonce and, for every stanza, its own new ephemeral secret (32 bytes) or salt (16 bytes), and none of these draws is used twice. The header MAC key and the payload key are derived separately from the file key, and neither the file key, the derived keys, the ephemeral secrets nor the plaintext appear in the output outside encryption.",
 ["inputs", "histories"], "all recipient lists, plaintexts and sequences of encryptions",
 "The tests replace the random source by a constant, so reuse or predictable values cannot show; non-leakage is a statement about all values at once.",
 [A+"file.py", A+"algorithms/x25519.py", A+"algorithms/scrypt.py", A+"algorithms/ssh_ed25519.py", A+"primitives/random.py", A+"primitives/encrypt.py"], [("random draws", A+"primitives/random.py"), ("key derivation labels", A+"file.py")],
 ["draws from the random source", "bytes written"])

prop("C14", "Nothing is output unless the whole file was authenticated",
 "When decryption of a file fails for any reason (no matching identity, bad header MAC, missing or altered payload nonce, truncated or altered payload at any chunk), no plaintext byte is returned to the caller and the decrypt command writes nothing at all to its output. When it succeeds, the output is exactly the plaintext, in binary and in armored mode.",
 ["inputs", "fault_sequences"], "all files, all faults in them, all key configurations",
 "Decrypt command tests cover only successful runs (and do not run here); partial output appears only on multi-chunk faults.",
 [A+"file.py", A+"cli.py", A+"stream.py"], [("whole payload decrypted before anything is released", A+"file.py:Decryptor._decrypt_body"), ("single write after decryption", A+"cli.py:decrypt")],
 ["bytes written to the output stream"])

prop("C15", "Unpadded base64 is a bijection on byte strings",
 "Decoding the encoding of any byte string returns it, the encoding has exactly ceil(4n/3) characters of the standard alphabet and no padding, and distinct byte strings have distinct encodings. Text with a length that no byte string encodes to is rejected, and values of the wrong type are refused.",
 ["inputs"], "all byte strings, all alphabet texts",
 "Tests use three fixed strings and one random 256-byte string (a single residue modulo 3).",
 [A+"primitives/encode.py"], [("padding removal and restoration", A+"primitives/encode.py")], ["encode/decode results"])

prop("C16", "Bech32 strings round-trip and are accepted only in canonical form",
 "For every human-readable part and payload, decoding the encoded string returns both, also when the whole string is upper-cased. Whatever the decoder accepts is canonical: re-encoding its result gives the (lower-cased) input back, so mixed case, bad separators, bad characters, bad human-readable parts, short data parts, bad checksums and non-zero or excess padding bits are all rejected.",
 ["inputs"], "all human-readable parts, payloads, and candidate strings",
 "Tests try payloads of 10-99 random bytes and a dozen fixed strings (one test raises NameError rather than testing); short payloads, every padding remainder and canonicity over all strings are out of reach.",
 [A+"primitives/bech32.py"], [("bit regrouping with padding checks", A+"primitives/bech32.py:_convertbits"), ("checksum and character checks", A+"primitives/bech32.py:bech32_decode")], ["bech32_encode/bech32_decode results"])

prop("C17", "Corrupted bech32 key strings are detected",
 "If up to two data characters of a valid key string (public or secret) are replaced by other characters of the alphabet at any positions, or two unequal neighbouring characters are swapped, decoding raises: it never returns a different payload. The same holds for up to three (thorough: four) replaced characters.",
 ["inputs"], "all keys, all error positions and values up to the stated number of errors",
 "Detection is a property of all codewords and all error patterns; the tests contain no substitution at all.",
 [A+"primitives/bech32.py"], [("BCH checksum", A+"primitives/bech32.py:_bech32_polymod/_bech32_verify_checksum")], ["bech32_decode result"])

prop("C18", "Age key strings round-trip and cannot be confused",
 "For every key, parsing its secret-key string gives a key with the same secret bytes and parsing its public-key string gives the same public key, in lower and in upper case. A string with another human-readable part (for example a public-key string where a secret key is expected, or vice versa), or a payload that is not 32 bytes, is rejected.",
 ["inputs"], "all key bytes, all payload lengths and human-readable parts",
 "Tests convert one fixed key each way.",
 [A+"keys/agekey.py", A+"primitives/bech32.py"], [("prefix and length check", A+"keys/agekey.py")], ["from_*_string / *_string results"])

prop("C19", "ASCII armor round-trips every byte string",
 "For every byte string and every label the writer accepts, reading the armored text back yields exactly one section with that label and those bytes, with body lines of at most 64 characters. The same holds through the armored output and input streams, however the data is split into write and read calls and with LF or CRLF line ends.",
 ["inputs", "histories"], "all byte strings, all accepted labels, all splits",
 "One test round-trips one random kilobyte; lengths at line boundaries, empty data, other labels and the stream wrappers are never tested.",
 [A+"utils/asciiarmor.py"], [("writer and reader", A+"utils/asciiarmor.py:write_ascii_armored/read_ascii_armored"), ("stream wrappers", A+"utils/asciiarmor.py:AsciiArmoredOutput/AsciiArmoredInput")], ["sections read"])

prop("C20", "Malformed armor is rejected, not repaired",
 "For arbitrary text the armor reader yields a section only if a BEGIN line with a valid label is followed by base64 lines (all but the last exactly 64 characters, none longer) and an END line with the same label; an unterminated section, a mismatched END label, over-long or short interior lines, and characters outside base64 raise an error. The armored input stream accepts exactly one section with the expected label and rejects none or several.",
 ["inputs"], "all texts",
 "Tests contain three malformed documents.",
 [A+"utils/asciiarmor.py"], [("label, line-length and base64 checks", A+"utils/asciiarmor.py:read_ascii_armored")], ["sections or exception"])

prop("C21", "An OpenSSH private key file yields exactly the key it contains, or an error",
 "For every well-formed unencrypted OpenSSH private key container (RSA, DSA, ECDSA on one of the NIST curves P-224, P-256, P-384 and P-521, or Ed25519), loading returns a key with exactly the stored numbers, independent of the comment and padding. A container with a wrong magic, more or fewer than one key, a length field that does not match the data, truncated fields, differing check words, a wrong padding or one longer than a cipher block, trailing data, or an Ed25519 private part whose public half does not match the stored public key is rejected and no key is returned.",
 ["inputs"], "all containers: key numbers, comments, padding lengths, and single-field corruptions",
 "Tests load four fixed files; no corrupted container is ever loaded and every field has its own universe of values.",
 [A+"openssh_keys.py"], [("container parser", A+"openssh_keys.py:load_openssh_private_key"), ("field readers", A+"openssh_keys.py:_sshbuf_get_*")], ["returned key numbers or exception"])

prop("C22", "An encrypted OpenSSH key opens only with its passphrase",
 "For every passphrase, salt, round count and supported cipher (AES-CTR with 128, 192 or 256 bit keys), a private key section encrypted under the bcrypt-derived key and IV is loaded with that passphrase to the same key. Without a passphrase or with a different one loading raises and no key is returned, and a key file naming another KDF or cipher is refused.",
 ["inputs"], "all passphrases, salts, rounds, ciphers",
 "Tests load one encrypted file with one right and one wrong passphrase.",
 [A+"openssh_keys.py"], [("key derivation and decryption", A+"openssh_keys.py:_decrypt_key"), ("check words", A+"openssh_keys.py:load_openssh_private_key")], ["returned key or exception"])

prop("C23", "SSH key discovery uses every usable key and is never blocked by others",
 "Loading the identities from an SSH directory returns every unencrypted RSA and Ed25519 private key found in its id_* files, wrapped in the matching kind, and skips everything else: public keys, empty or garbage files, passphrase-protected keys, truncated keys and keys of unsupported type. No such file makes discovery fail.",
 ["inputs", "configurations"], "all directory contents",
 "The test directory holds two good keys and one empty file.",
 [A+"keyloader.py", A+"openssh_keys.py"], [("per-file loading with errors turned into 'no key'", A+"keyloader.py:load_ssh_private_key/load_ssh_keys")], ["load_ssh_keys result"])

prop("C24", "Key and alias files are read completely and in order",
 "For every key file, the identities returned are exactly those of its lines that are neither blank nor comments, in file order, whatever surrounding white space, line ends or missing final newline; a line that is not a valid secret key is an error and a missing file yields no identities. For every alias file, each label maps to all values of all its lines, in order.",
 ["inputs"], "all file contents",
 "Tests read one key file with one key and one alias file.",
 [A+"keyloader.py"], [("line parsing", A+"keyloader.py:load_keys_txt/load_aliases")], ["load_keys_txt / load_aliases results"])

prop("C25", "Recipient arguments resolve to all their keys or fail",
 "Resolving a recipient gives exactly the keys it denotes, in order: a known alias gives the keys of all its values and fails if one of them denotes none, an existing file or a URL gives the key of every key line, a key string gives that key. Lines of a file or URL are never expanded as aliases, files or URLs. The encrypt command never silently drops a recipient: if an argument denotes no key it fails and writes nothing.",
 ["inputs", "configurations"], "all recipient strings, alias tables, file and URL contents",
 "Tests resolve one literal key; aliases, files, URLs and unresolvable arguments are not resolved at all.",
 [A+"keyloader.py", A+"cli.py"], [("resolution order and nesting limits", A+"keyloader.py:resolve_public_key"), ("collection of recipients", A+"cli.py:encrypt")], ["resolve_public_key result", "encrypt command outcome"])

prop("C26", "HMAC and HKDF compute their RFC definitions for every key",
 "For every key of any length and every message, the generated tag is HMAC-SHA-256 of RFC 2104, verification accepts exactly that tag, and validity testing agrees with verification. HKDF output is RFC 5869 with SHA-256 for every salt, label, key and length, with salt, label and key in their own roles.",
 ["inputs"], "all keys, key lengths, messages, tags, salts, labels",
 "RFC vectors use keys of 4, 20, 25 and 131 bytes; lengths between are where an implementation can differ.",
 [A+"primitives/hmac.py", A+"primitives/hkdf.py"], [("long-key reduction", A+"primitives/hmac.py:_reduce_key"), ("tag comparison", A+"primitives/hmac.py:HMAC")], ["tags and accept/reject"])

prop("C27", "A generated key file is usable and its exposure is reported",
 "For every secret key, the generated file read back as a key file yields exactly that one identity, and the public key in the comment and on standard error is its public key; the secret is written only to the output. A warning appears for a regular output file exactly when its permissions give group or others any access, for every permission value.",
 ["inputs", "configurations"], "all secret keys, all file modes, output kinds",
 "One test generates one fixed key to a pipe; file modes are never varied and the output is never read back.",
 [A+"cli.py", A+"keyloader.py"], [("permission test", A+"cli.py:generate"), ("key file text", A+"cli.py:generate")], ["output text, standard error"])

prop("C28", "The encrypt command encrypts for all its recipients or writes nothing",
 "The encrypt command refuses to write to a terminal on standard output and refuses to run without a recipient, in both cases before writing anything. Otherwise its output, armored or not, decrypts to the input for every named recipient and, when a passphrase was requested, for the UTF-8 encoding of the passphrase typed.",
 ["inputs", "configurations"], "all option combinations, plaintexts, passphrases",
 "CLI tests check one fixed ciphertext, one run without recipients and one terminal; armored and passphrase modes are never run.",
 [A+"cli.py", A+"utils/asciiarmor.py", A+"file.py"], [("guards and assembly of recipients", A+"cli.py:encrypt")], ["exit status and bytes written"])

prop("C29", "Keys compare equal exactly when they are the same key",
 "Two public keys, or two age secret keys, compare equal exactly when they are of the same kind and have the same key bytes, equality is symmetric, and equal keys hash equally. Keys never compare equal to values of another kind, and the representations (repr) of secret keys and passphrases do not contain the secret.",
 ["inputs"], "all pairs of keys",
 "No test compares unequal keys or hashes.",
 [A+"keys/agekey.py", A+"keys/rsa.py", A+"keys/ed25519.py", A+"keys/password.py"], [("__eq__/__hash__/__repr__", A+"keys/*.py")], ["==, hash(), repr()"])

prop("C30", "SSH key fingerprints are the standard ones",
 "For every RSA and Ed25519 public key, the MD5 fingerprint is 'MD5:' followed by the sixteen digest bytes of the key's wire encoding as two-digit lower-case hex separated by colons, and the SHA-256 fingerprint is 'SHA256:' followed by the unpadded base64 of its digest. The fingerprint line adds the key size in front and the comment and kind behind, and any other algorithm name is refused.",
 ["inputs"], "all keys, digests, comments and algorithm names",
 "Tests compare four fixed strings; leading-zero hex digits and digest bytes that matter to the formatting appear only for some keys.",
 [A+"keys/rsa.py", A+"keys/ed25519.py"], [("fingerprint formatting", A+"keys/rsa.py:fingerprint, "+A+"keys/ed25519.py:fingerprint")], ["fingerprint strings"])

prop("C90", "Ciphertexts reveal nothing to holders of no identity",
 "Nobody without a matching identity can learn anything about the plaintext but its length, or forge a file, against the real cryptographic primitives.",
 ["inputs"], "all adversaries",
 "A computational statement about ChaCha20-Poly1305, X25519, RSA-OAEP, scrypt and SHA-256; no test can settle it.",
 [A+"primitives/encrypt.py", A+"stream.py"], [("third-party primitives", "cryptography, PyNaCl")])

prop("C91", "Files interoperate with the reference age implementation",
 "Every file written by the reference age tool for an X25519, passphrase or ssh-rsa recipient is decrypted by this implementation and vice versa.",
 ["inputs", "programs"], "all files of both implementations",
 "The compatibility workflow compares two messages; the full statement quantifies over all files of another program.",
 [A+"file.py", A+"format.py"], [("file format", A+"format.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
