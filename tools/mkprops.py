#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the statements readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["anothertls/src/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": obs or [], "hook_needed": None}})

prop("C01", "Record ciphers equal their standards and reject every altered message",
 "AES-128-GCM, AES-256-GCM and ChaCha20-Poly1305 produce, for every key, nonce, plaintext and associated data of any length, exactly the ciphertext and tag of their standards, and decryption returns the plaintext of every such ciphertext. Decryption of anything else, with any change to ciphertext, tag, nonce, key or associated data, fails and returns no data.",
 ["inputs"], "all keys, nonces, plaintext lengths (all residues of the block size, zero included), associated data lengths, GCM nonce lengths, and all changes of a valid message",
 "The tests compare a few published vectors; block boundaries, counter wrap-around, carry patterns of Poly1305 and rejection of altered input are sampled at one or two points.",
 ["crypto/aes/cipher.rs", "crypto/aes/gcm.rs", "crypto/chacha20/cipher.rs", "crypto/chacha20/poly1305.rs", "crypto/ciphersuite.rs"],
 [("AES rounds and key expansion", "crypto/aes/cipher.rs"), ("GHASH, counter, tag comparison", "crypto/aes/gcm.rs"), ("quarter round, block function, tail handling", "crypto/chacha20/cipher.rs"), ("Poly1305 accumulation and comparison", "crypto/chacha20/poly1305.rs")],
 obs=["CipherSuite::get_cipher().encrypt/decrypt"])
prop("C02", "SHA-2, HMAC and HKDF equal their standards, incrementally too",
 "For every message and every way of splitting it into updates, SHA-256 and SHA-384 return the digest of the standard; reading or copying an intermediate digest does not change later results. HMAC and HKDF (extract, expand) equal RFC 2104 and RFC 5869 for every key, message, salt, info and output length up to the limit.",
 ["inputs", "histories"], "all message lengths around the block sizes, all splits into updates, all key lengths around the block size, all output lengths, all interleavings of update, finalize and clone",
 "Tests check single published vectors with one update; padding boundaries, long keys, splitting and use of intermediate digests are not reached.",
 ["hash/sha256.rs", "hash/sha384.rs", "hash/hmac.rs", "hash/hkdf.rs", "hash/mod.rs"],
 [("block buffering and padding", "hash/sha256.rs, hash/sha384.rs"), ("key normalisation", "hash/hmac.rs"), ("expand loop", "hash/hkdf.rs")],
 [("buffer", "bytes of an incomplete block", "hash/sha256.rs")], ["sha256(), Sha256::update/finalize, Hmac, Hkdf"])
prop("C03", "X25519 equals RFC 7748 and both sides agree on the secret",
 "For every scalar and every u-coordinate, non-canonical and low-order ones included, the X25519 function returns the value of RFC 7748. The public key sent in a handshake always belongs to the secret that is used for the key exchange, and a key exchange whose result is all zero aborts the handshake.",
 ["inputs", "configurations"], "all 32-byte scalars and coordinates, all sizes of the random secret, all low-order and non-canonical points",
 "One vector is tested; carries, reduction of non-canonical values, secrets with leading zero bytes and low-order points need adversarial inputs.",
 ["crypto/ellipticcurve/math/curve25519.rs", "crypto/ellipticcurve/math.rs", "net/key_schedule.rs", "net/client/connection.rs", "net/server/server_hello.rs"],
 [("Montgomery ladder", "crypto/ellipticcurve/math/curve25519.rs"), ("all-zero check", "net/key_schedule.rs")], obs=["math::x25519", "key_share in the hellos", "traffic keys on the wire"])
prop("C04", "ECDSA P-256 signs correctly and accepts exactly the valid signatures",
 "Every signature produced over P-256 verifies under FIPS 186 for the signer's public key, and is encoded as the unique DER encoding. Verification accepts a signature if and only if FIPS 186 does for that key and digest; every other value, out-of-range numbers, other digests, keys not on the curve and malformed encodings included, is rejected without failing in another way.",
 ["inputs"], "all keys, digests, nonces, pairs (r, s) including 0, n, n+r and short numbers, public keys on and off the curve, DER encodings and their mutations",
 "The test makes one signature and verifies it with the same code; rejection and the oracle of an independent implementation are missing.",
 ["crypto/ellipticcurve/ecdsa.rs", "crypto/ellipticcurve/math.rs", "crypto/ellipticcurve/math/jacobian.rs", "crypto/ellipticcurve/signature.rs", "utils/der.rs"],
 [("range checks", "crypto/ellipticcurve/ecdsa.rs"), ("curve equation", "crypto/ellipticcurve/curve.rs"), ("DER of the signature", "crypto/ellipticcurve/signature.rs")], obs=["Ecdsa::sign/verify", "Signature::to_der/from_der", "math::multiply/add"])
prop("C05", "Handshakes with a conforming peer complete and both sides have the same keys",
 "A server or client of this library completes the handshake with every peer that follows RFC 8446 and shares a cipher suite, X25519 and ecdsa_secp256r1_sha256 with it, whatever randoms, key shares, certificates, session ids, unknown extensions or padding the peer uses. Afterwards both sides have the same RFC 8446 traffic keys and data flows in both directions.",
 ["inputs", "configurations"], "all three suites, both roles, with and without client authentication, all conforming variants of each message",
 "Tests have no handshake at all; interoperability was checked by hand with a single curl command.",
 ["net/server/connection.rs", "net/client/connection.rs", "net/key_schedule.rs", "net/record.rs", "net/extensions", "net/handshake"],
 [("handshake of the server", "net/server/connection.rs"), ("handshake of the client", "net/client/connection.rs"), ("key schedule", "net/key_schedule.rs")],
 [("state", "next expected message", "net/server/connection.rs, net/client/connection.rs")], ["ServerConnection::accept", "ClientConnection::connect", "bytes on the socket"])
prop("C06", "The server completes a handshake only on the exact message sequence",
 "A server handshake succeeds only if the client sent exactly the messages RFC 8446 prescribes for the configuration, in order, each once, under the right protection and with a correct Finished. Any message missing, repeated, out of order, of another type, unprotected, under other keys or with wrong Finished data ends the handshake with an error, an alert and no connection.",
 ["histories", "inputs"], "all sequences of client messages (every type, valid or forged, plaintext or protected with each key) up to a bounded length, with and without client authentication",
 "No test drives the server state machine; wrong orders are a tree of sequences, each needing a peer that can compute valid contents for it.",
 ["net/server/connection.rs", "net/handshake/mod.rs", "net/handshake/finished.rs"],
 [("dispatch on the state", "net/server/connection.rs handle_handshake_record"), ("comparison of verify_data", "net/server/connection.rs handle_client_finish")],
 [("state", "next expected client message", "net/server/connection.rs"), ("tshash", "transcript", "net/server/connection.rs")], ["result of accept", "alert on the socket"])
prop("C07", "The client completes a handshake only on the exact message sequence",
 "A client handshake succeeds only if the server sent exactly the messages RFC 8446 prescribes, in order, each once, under the right protection and with a correct Finished. Any message missing, repeated, out of order, of another type, unprotected, under other keys or with wrong Finished data ends the handshake with an error and no connection, and the client sends no Finished.",
 ["histories", "inputs"], "all sequences of server messages (every type, valid or forged, plaintext or protected with each key) up to a bounded length, with and without CertificateRequest",
 "No test drives the client state machine.",
 ["net/client/connection.rs", "net/handshake/mod.rs", "net/handshake/finished.rs"],
 [("dispatch on the state", "net/client/connection.rs handle_handshake_record"), ("comparison of verify_data", "net/client/connection.rs handle_server_finish")],
 [("state", "next expected server message", "net/client/connection.rs")], ["result of connect", "bytes on the socket"])
prop("C08", "A server that requires client certificates admits only holders of valid ones",
 "With a client CA configured, a connection is established only if the client sent a certificate whose signature verifies under the CA key, whose validity period contains the current time, that the custom verify function (if any) accepted, and proved possession of its private key over this handshake's transcript. In every other case the handshake fails and the client is not admitted; a client that satisfies all of it is admitted.",
 ["inputs", "histories", "configurations"], "all combinations of certificate (none, self-signed, other CA, altered, expired, not yet valid, other key type), time, CertificateVerify (missing, wrong key, wrong transcript, wrong label, malformed) and custom verify result",
 "No test exercises client authentication; soundness is a universal statement over hostile combinations.",
 ["net/server/connection.rs", "net/handshake/certificate.rs", "utils/x509.rs", "crypto/ellipticcurve/ecdsa.rs"],
 [("chain check", "net/handshake/certificate.rs has_signed"), ("possession", "net/server/connection.rs handle_client_certificate_verify"), ("deferred errors", "net/server/connection.rs FinishWithError")],
 [("client_cert", "certificate that passed the checks", "net/server/connection.rs")], ["result of accept"])
prop("C09", "The client accepts only a server that proves possession of its certificate key",
 "A client connection is established only if the CertificateVerify of the server is a valid ecdsa_secp256r1_sha256 signature, by the key in the server's certificate, over the server context string and the transcript of exactly this handshake, the certificate is in its validity period, and the key exchange and Finished match. A client that is asked for a certificate answers with its configured one and a valid proof, or with an empty list.",
 ["inputs", "histories", "configurations"], "all combinations of server certificate, time, signature (key, label, transcript, scheme, encoding) and certificate request",
 "No test exercises the client; each forgery needs a peer able to compute everything else correctly.",
 ["net/client/connection.rs", "net/handshake/certificate.rs"],
 [("signature check", "net/client/connection.rs handle_server_certificate_verify"), ("validity", "net/handshake/certificate.rs from_hello"), ("client response", "net/client/connection.rs handle_certificate_request")],
 [("server_cert", "certificate whose key must sign", "net/client/connection.rs")], ["result of connect"])
prop("C10", "Tampered, replayed, reordered, dropped or injected records are never delivered",
 "Whatever an attacker on the network does to the protected records (changing any bit, truncating, duplicating, reordering, dropping, injecting, splicing across directions or connections), the reader receives only an exact prefix of the data the peer sent and then an error. After such an error no further data is ever delivered.",
 ["histories", "fault_sequences", "inputs"], "all sequences of attacker operations up to a bounded number on streams of records, all bit positions of a record, every suite and both roles",
 "No test covers the record layer; attacks are combinations of operations on ciphertexts that tests do not have.",
 ["net/record.rs", "net/stream.rs", "net/key_schedule.rs"],
 [("sequence number in the nonce", "net/key_schedule.rs get_per_record_nonce"), ("tag check", "net/record.rs decrypt"), ("sticky error", "net/stream.rs tls_read")],
 [("sequence_number", "records read or written per direction", "net/key_schedule.rs")], ["tls_read"])
prop("C11", "Application data arrives complete, in order and unchanged",
 "The concatenation of the data read from one end equals the concatenation of the data written to the other end, for all sizes of writes (zero and larger than a record included), all sizes of read buffers, all padding, and all segmentations and short transfers of the transport; both directions are independent. Every record sent respects the size limits of RFC 8446.",
 ["histories", "inputs", "schedules"], "all sequences of writes and reads with sizes around the boundaries, all segmentations of the byte stream, short reads and writes",
 "No test covers the stream; sizes around 2^14, buffers smaller than a record and TCP segmentation are never tried.",
 ["net/stream.rs", "net/record.rs"],
 [("fragmentation", "net/stream.rs tls_write"), ("reassembly of records", "net/stream.rs read_raw_record"), ("buffering of plaintext", "net/stream.rs tls_read")],
 [("rx_buffer", "bytes of the socket not yet processed", "net/stream.rs"), ("plaintext", "data not yet read by the user", "net/stream.rs")], ["tls_read", "tls_write", "bytes on the socket"])
prop("C12", "Handshakes do not depend on how the transport or the peer splits messages",
 "The outcome of a handshake is the same for every segmentation of the byte stream by TCP, for every way the peer puts its handshake messages into records (several in one record, one over many records) that RFC 8446 allows, and when application data directly follows the last handshake record. Data that arrived together with the handshake is not lost.",
 ["schedules", "histories"], "all segmentations with a bounded number of cuts, byte by byte, all compositions of a flight into records, application data in the same segment",
 "No test covers it; with a real socket on loopback every read returns a whole flight.",
 ["net/stream.rs", "net/handshake/mod.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("reassembly of records", "net/stream.rs read_raw_record"), ("reassembly of messages", "net/handshake/mod.rs HandshakeBuffer")],
 [("rx_buffer", "bytes not yet processed", "net/stream.rs"), ("hs_buffer", "incomplete handshake message", "net/handshake/mod.rs")], ["accept", "connect", "tls_read"])
prop("C13", "No input from the network makes a connection panic, crash or loop forever",
 "Whatever bytes a peer sends, before, during or after the handshake, with or without valid keys, an accept, connect, read or write returns a result: it does not panic, overflow the stack, use memory out of proportion or fail to stop once the input has ended.",
 ["inputs", "histories"], "all single changes (truncation, deletion, insertion, every length field and byte value of interest) of every message of every flow, plaintext and properly protected, all short inputs, all certificates and signatures made from the grammar with such changes",
 "Tests feed only well-formed data, malformed data inside the encrypted part needs a peer with keys.",
 ["net", "utils/x509.rs", "utils/der.rs", "utils/reader.rs", "crypto/ellipticcurve/signature.rs"],
 [("bounds-checked reader", "utils/reader.rs"), ("DER parser", "utils/der.rs"), ("limits", "net/stream.rs, net/handshake/mod.rs")], obs=["accept", "connect", "tls_read", "tls_write"])
prop("C14", "Only offered parameters are negotiated, otherwise the handshake is refused",
 "The server selects only a version, cipher suite, group and signature scheme that the client offered and it supports, echoes the session id, and refuses a client with none in common, without the mandatory extensions or with another server name than configured. The client accepts only a version, suite, group and session id matching what it sent. If the ClientHello offers ChaCha20-Poly1305 the server selects it.",
 ["inputs", "configurations"], "all lists of suites up to a length over supported, unknown and reserved values, all subsets and orders of extensions, versions, groups, schemes, names and session ids, all values in ServerHello",
 "No test looks at negotiation.",
 ["net/server/server_hello.rs", "net/client/client_hello.rs", "net/client/connection.rs", "net/extensions"],
 [("selection", "net/server/server_hello.rs from_client_hello"), ("checks of the client", "net/server/server_hello.rs from_raw, net/client/connection.rs handle_server_hello")], obs=["ServerHello on the socket", "result of accept and connect"])
prop("C15", "Every failure is reported with the right alert under the right keys",
 "When a side aborts because of the peer, it sends exactly one alert of level fatal, with the description RFC 8446 assigns to the failure and equal to the error returned to the caller, protected with the keys the peer expects at that point, and sends nothing afterwards. An alert received from the peer ends the connection with the error of that description and is not answered; close_notify is reported as an orderly end.",
 ["histories", "inputs"], "all failure classes at each point of both handshakes and of the data phase, all 256 alert descriptions, all suites",
 "No test produces an alert.",
 ["net/alert.rs", "net/stream.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("alert codes", "net/alert.rs"), ("write_alert", "net/stream.rs"), ("mapping of errors", "net/server/connection.rs do_handshake_with_error")],
 [("error", "connection has failed", "net/stream.rs")], ["alert records on the socket", "errors returned"])
prop("C16", "Certificate fields are exactly those signed, and the validity check is exact",
 "The version, serial number, names, validity, algorithms and public key reported for a certificate are those in its signed part for every well-formed certificate, and the bytes that are checked against the signature are exactly the signed part. A certificate is considered valid exactly from notBefore to notAfter, for every UTCTime; a certificate that is not well-formed (a field missing, doubled, misplaced, of the wrong type or length, anything behind the last one; the contents of the extensions, which are not used, apart) is rejected.",
 ["inputs"], "all UTCTime values over all days, months, leap years and the 1950/2049 pivot, all times around both ends, certificates made from the grammar with every optional field and field order",
 "Tests parse one certificate; dates, leap years, other encodings and crafted duplicates of fields are not covered.",
 ["utils/x509.rs", "utils/der.rs", "net/handshake/certificate.rs"],
 [("walk over the DER structure", "utils/x509.rs from_raw"), ("conversion of UTCTime", "utils/x509.rs"), ("is_valid", "utils/x509.rs Validity")], obs=["X509::from_raw", "Certificate::has_signed", "Validity::is_valid"])
prop("C17", "PEM files and base64 are read exactly or refused",
 "Base64 decoding inverts encoding for every byte string and refuses every text that is not the encoding of a byte string; PEM reading returns exactly the contained data for every line ending (LF or CRLF), line length, surrounding text and number of sections (of several with one label, the first), and refuses a file with an incomplete section. An EC PRIVATE KEY (SEC1) file yields exactly the private number in it, and a file without a usable P-256 key is refused.",
 ["inputs"], "all byte strings up to a length, all four-character groups, all texts with one change, PEM layouts (LF, CRLF, no final newline, text around, several sections), all lengths of keys",
 "Tests decode two texts; boundary lengths, invalid characters and layouts of other tools are not covered.",
 ["utils/base64.rs", "utils/pem.rs", "crypto/ellipticcurve/privatekey.rs", "net/handshake/certificate.rs"],
 [("decoder", "utils/base64.rs"), ("section parser", "utils/pem.rs"), ("SEC1 parser", "crypto/ellipticcurve/privatekey.rs")], obs=["base64::encode/decode", "PrivateKey::from_pem", "ServerConfigBuilder"])
prop("C18", "The key log has exactly the right secrets of every connection, in whole lines",
 "With a key log configured, a completed handshake appends the four NSS key log lines with the client random and the traffic secrets that decrypt this connection, and an unfinished one only those already in use; without it nothing is written. Existing content is kept, connections at the same time never mix their lines, and a file that cannot be opened or written does not stop the connection.",
 ["schedules", "fault_sequences", "histories"], "both roles, all suites, all interleavings of the writes of two connections, all points where opening or writing fails or is short",
 "No test writes a key log; mixing needs a particular interleaving of two connections.",
 ["utils/keylog.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("append with one write", "utils/keylog.rs append_to_file"), ("calls", "net/server/connection.rs, net/client/connection.rs")], obs=["operations on the key log file"])
prop("C19", "Random numbers have the requested size and range and are always fresh",
 "Each request for random bytes returns exactly that many, for every size, and each random number lies in the requested range. Randoms, session ids, key shares and signature nonces of all connections come from fresh output of the operating system generator (unless the insecure one is configured, which is never used for signatures): no two of them ever use the same output, no byte of it is constant, and short reads of the device do not shorten or repeat it.",
 ["inputs", "fault_sequences", "histories"], "all sizes around multiples of the internal buffer, all ranges, all short read patterns up to a bound, all sequences of connections and requests up to a bound",
 "A test checks two values of the insecure generator; reuse over connections and short reads need a controlled device.",
 ["rand/urandom.rs", "rand/simplerng.rs", "net/client/connection.rs", "net/server/server_hello.rs", "crypto/ellipticcurve/ecdsa.rs"],
 [("reads of the device", "rand/urandom.rs"), ("range", "rand/urandom.rs between")], obs=["RngCore::bytes/between", "randoms, key shares and signatures on the socket"])
prop("C20", "Concurrent connections do not influence each other",
 "Connections of one or several servers and clients in different threads behave exactly as if each ran alone: the data, keys, result and alerts of one connection do not depend on what any other connection does or on how their steps are interleaved.",
 ["schedules"], "all interleavings of the socket operations of two or three connections up to a bounded number of preemptions, with healthy and failing connections mixed",
 "Tests are single threaded; an influence would need a particular interleaving.",
 ["net/server/connection.rs", "net/client/connection.rs", "net/stream.rs", "crypto/ciphersuite.rs", "utils/log.rs"],
 [("no shared mutable state", "net/stream.rs, net/record.rs"), ("shared cipher objects", "crypto/ciphersuite.rs get_cipher")], obs=["all bytes on all sockets", "results of accept, connect, tls_read, tls_write"])
prop("C21", "Configurations are accepted exactly when they are usable, and are honoured",
 "A server configuration needs a certificate and a key, and a custom verify function needs a client CA; a client configuration with a certificate needs its key; every other combination of options, set in any order, builds, and an unusable one is refused with an error naming the missing part. Every accepted option takes effect in each handshake of that configuration, and only there.",
 ["configurations"], "all subsets of the builder options, all orders of small subsets, and the observable effect of each option",
 "No test builds a configuration.",
 ["net/server/config.rs", "net/client/config.rs", "net/handshake/certificate.rs"],
 [("validation", "net/server/config.rs build, net/client/config.rs build")], obs=["ServerConfigBuilder, ClientConfigBuilder", "handshakes made with the configuration"])
prop("C22", "A failing or ending transport at any point gives an error, never a false success",
 "If the transport fails, ends or is interrupted at any operation, accept, connect, read and write return an error (interruptions are retried), never success, never data that was not completely received and authenticated, and never panic; a truncated stream is not reported as an orderly end. Data acknowledged as written before the failure was sent completely.",
 ["fault_sequences", "crash_points"], "every recv and send call of both roles in handshakes and data transfer, with every kind of fault (reset, end of stream, interruption, timeout, short transfer), all byte positions of truncation, and pairs of faults",
 "Tests have no transport; each fault has to be injected at a particular call.",
 ["net/stream.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("handling of read errors", "net/stream.rs tcp_read"), ("write_all", "net/stream.rs flush, tls_write")],
 [("error", "connection has failed", "net/stream.rs")], ["results of accept, connect, tls_read, tls_write"])
prop("C23", "Nothing secret leaves unprotected and no nonce is used twice",
 "After the ServerHello everything a side sends, apart from ChangeCipherSpec, is protected with the keys of its own direction and of the right phase, every record with a new sequence number starting at zero; application data is never sent before the handshake has completed nor under handshake keys. No byte sequence of application data, certificates or secrets appears on the wire outside the protection.",
 ["histories", "inputs"], "all flows of both roles with all suites, failing ones included, all sequences of writes and alerts up to a bound, writes before and after errors",
 "No test looks at the bytes on the wire.",
 ["net/record.rs", "net/stream.rs", "net/key_schedule.rs", "net/server/connection.rs", "net/client/connection.rs"],
 [("choice of keys", "net/record.rs encrypt"), ("sequence number", "net/key_schedule.rs get_per_record_nonce"), ("refusal without protection", "net/stream.rs tls_write")],
 [("application_keys", "keys of the data phase", "net/record.rs"), ("sequence_number", "used once per record", "net/key_schedule.rs")], ["all bytes on the socket"])
prop("C24", "The log reveals no secrets and changes nothing",
 "Whatever the setting of the log (RUST_LOG) and whatever the peer does, every exchange has the same results and puts the same bytes on the socket as without a log. Nothing is written to standard output or standard error unless the log is on (that a key log file cannot be written may be said), levels include the ones below, the setting is read regardless of case, and settings or other environment variables that make no sense leave the log off instead of ending the program. No text of the log contains any part of a private key, a secret or traffic key of the connection, unpublished random numbers or application data, in any notation.",
 ["configurations", "inputs"], "all settings of the log, all points of the exchange of both sides with every kind of message, alert, failure and changed byte there",
 "The log is off in all tests; what it prints on the many failure paths is never looked at.",
 ["utils/log.rs", "net/server/connection.rs", "net/client/connection.rs", "net/stream.rs", "net/handshake/certificate.rs", "crypto/ellipticcurve/ecdsa.rs", "utils/x509.rs"],
 [("level from the environment", "utils/log.rs init"), ("macros which print", "utils/log.rs debug, error, fixme")],
 [("LOG_LEVEL", "level of the process", "utils/log.rs")], ["standard output and standard error", "all bytes on the socket", "results of accept, connect, tls_read, tls_write"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
