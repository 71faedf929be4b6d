#!/usr/bin/env python3
"""Writes MANIFEST.json; a property without a check is listed under not_applicable."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
REAL = " The real code is executed through its public interface; the environment (sockets, random device, clock, files) and the reference peers and primitives of the harness are trusted."
C = {
 "C01": ("exhaustive enumeration of a bounded, structured input space on the real ciphers, compared with independent references", "exploration",
         "All lengths 0 to 272 and block boundaries, all single-bit changes of tag, ciphertext, nonce, key and associated data, structured keys, lengths to 2 MB around the borders of counters; not all keys."),
 "C02": ("exhaustive enumeration of a bounded input space and of all update/clone/finalize histories on the real hashes, compared with independent references", "exploration",
         "All message lengths up to several blocks, lengths around 2^16, 2^21 and 2^29 bytes, all splits into updates, all short histories of update, copy and finish; all HMAC key lengths and HKDF lengths; not all contents."),
 "C03": ("exhaustive enumeration of structured scalars, coordinates, secrets and peer shares on the real function and in real handshakes, compared with an independent reference", "exploration",
         "All one bit changes of several bases, byte values, limb patterns, runs, numbers around the prime, all low-order encodings, random streams with zero bytes in every place; not all 2^510 inputs."),
 "C04": ("exhaustive enumeration of edge values of keys, digests, nonces, verification scalars and encodings on the real code, verdicts compared with an independent reference", "exploration",
         "All pairs of edge scalars for about 40 keys, all one bit changes, out-of-range numbers, all one byte changes and structural variants of signature encodings, chosen nonces; not all inputs."),
 "C06": ("explicit-state exploration of all action words up to a depth on the real server, compared with a state model", "model_checking",
         "All words of 50 client actions up to depth 5 (4 for two suites; thorough 6 to 7), pruned when the server has ended, and all single-bit, length and transcript-subset errors of Finished."),
 "C07": ("explicit-state exploration of all action words up to a depth on the real client, compared with a state model", "model_checking",
         "All words of 51 server actions up to depth 5 to 7 (thorough 8), pruned when the client has ended, and all single-bit, length and transcript-subset errors of Finished."),
 "C08": ("exhaustive enumeration of all combinations of certificate, proof, time, custom function and Finished, and of all single changes, as real handshakes compared with the rule of the property", "exploration",
         "The product of 12 certificates, 4 functions, 3 clocks, 6 proofs, 2 CAs and Finished, all orders with repetition of Certificate messages, proofs and Finished, variants of the signed content, every bit of certificate and proof, all transcript subsets, signature schemes, keys, times around limits; not all certificates."),
 "C09": ("exhaustive enumeration of all combinations of certificate, proof, time, Finished and request, and of all single changes, as real handshakes compared with the rule of the property", "exploration",
         "The product of 8 certificate chains, 3 clocks, 6 proofs, 3 Finished, requests and client certificates, every bit of signature and key, variants of the signed content, all transcript subsets, signature schemes, times around limits, message forms; not all certificates."),
 "C10": ("explicit-state exploration of all words of attacker actions up to a depth on the real reader, compared with a state model, and enumeration of all single changes", "model_checking",
         "All words over 23 attacker actions on 4 records, with up to one (thorough two) actions after the first wrong one; every bit, length, cut and number of a record; all orders of the protected handshake flights with repetition."),
 "C11": ("explicit-state exploration of all words of writes and reads of both ends on the real connection, compared with two byte queues", "model_checking",
         "All words over 15 actions to depth 3 (thorough 4) and de Bruijn sequences of order 3 (4), all sizes to 300 and around record limits, all buffers, padding, segment sizes, single cuts and short writes; not all contents."),
 "C12": ("exhaustive enumeration of fragmentations and segmentations as real handshakes, outcome compared with the plain handshake", "model_checking",
         "All joins of messages, all fragment and segment sizes to 80, all single cuts of both flights, many pairs of cuts, with correct and defective handshakes and data following directly; messages to 65 kB."),
 "C14": ("exhaustive enumeration of hellos of reference peers on the real negotiation, compared with the rule of the property", "exploration",
         "All subsets and orders of small lists of suites, versions, groups and schemes, all 65536 values of every field, session ids, server names, extension orders and malformed hellos, for both sides; not all hellos."),
 "C13": ("exhaustive enumeration of single changes, short bodies, sizes and floods at every place of real exchanges, with memory accounting and a step limit", "exploration",
         "All values of every byte of every message and record at every place of the exchange of both sides, all short bodies, truncations, all declared lengths of a list, floods; combinations of two changes only in the thorough tier."),
 "C16": ("exhaustive enumeration of certificates and single changes on the real decoder, compared with an independent strict decoder", "exploration",
         "All days of 1950 to 2049, all seconds of some days, all two-digit values of the fields of some times, lists of names, versions, serial numbers, keys, algorithms, extensions and field orders, all values of every byte and many element edits of three certificates."),
 "C17": ("exhaustive enumeration of byte strings, texts, PEM layouts and keys on the real decoders, compared with independent strict decoders", "exploration",
         "All byte strings to three bytes and lengths to 300, all texts of four characters of 78 (thorough: all of ASCII), changes of longer ones; PEM files with all combinations of layouts, all cuts and many changes of every byte; all changes of every byte and all short sequences of parts of a key."),
 "C18": ("controlled-scheduler exploration of all interleavings of file operations of concurrent real connections, and enumeration of every fault and every end or change at every byte", "model_checking",
         "All interleavings of the file operations of two connections, of three with at most three deviations (thorough: four), every fault of every file operation, ends and changes at every byte of the peer, each compared with the secrets of the reference peer."),
 "C19": ("exhaustive enumeration of sizes, ranges, device faults, histories of requests and connections, and of every byte of a controlled random device", "exploration",
         "All sizes to 1100 and around multiples of the buffer, all ranges to 40 bytes with every length of the number, all short reads at every read, every failure, all histories of nine kinds of requests and connections to depth 3 (thorough: 4); every byte of the device is changed in all histories to depth 2 (thorough: 3)."),
 "C20": ("stateless exploration of real concurrent connections under a controlled scheduler: all schedules with a bounded number of preemptions at operations on sockets, devices and files, at every allocation, and (in an instrumented build) at branches and accesses to statics of the crate", "model_checking",
         "21 kinds of connections of both roles, healthy and failing: all ordered pairs with one preemption, selected ones with two and three, three threads, preemption at every allocation of bytes (thorough: every allocation), at the first occurrence of every branch and at every access to a static, all orders of steps in one thread, shared servers and configurations, streams moved between threads, own client against own server; compared with each connection alone in a process of its own."),
 "C21": ("explicit model of the configuration (last value of every option) against the real code: all orders of all subsets of the options, all combinations of values, all words of repeated options, all words of handshakes of one configuration, all pairs of configurations next to each other; observed in handshakes with reference peers", "model_checking",
         "13700 orders of server options, 65 of client options, all 2916 and 108 combinations of two or three values, words of repeated options up to length 3 and 4 (thorough 4 and 5), words of 9 kinds of handshakes up to length 3 (4), pairs (triples) of 23 configurations, pairs of 19 names, unusable files. Host names that differ in case only are not judged."),
"C23": ("exhaustive enumeration of complete, ended, changed and disturbed exchanges, of all faults of the send calls and of all words of writes, reads and failures after the handshake on the real code; every byte on the socket is opened and judged with an independent key schedule", "model_checking",
         "Both roles, all suites, with and without client authentication and ChangeCipherSpec; end and two changes at every byte on the wire and in every message before its protection, 14 kinds of records at every place, faults of every send call, words of 11 actions up to length 4, 66000 records. After changes of a hello whose keys are not known to the reference only the form is judged."),
"C15": ("exhaustive enumeration of failures and received alerts at every point of real handshakes, compared with the descriptions of RFC 8446", "exploration",
         "All record, content and handshake types, about 150 failures and all 256 alert descriptions at every point of the exchange of both sides, all suites, with and without client authentication and ChangeCipherSpec."),
 "C05": ("exhaustive enumeration of the parameters of conforming reference peers as real handshakes with data exchange", "exploration",
         "All suite lists and orders, extension orders and places, share, scheme and version lists, hello and certificate sizes, padding, requests, tickets, and secrets and signatures with zero bytes at their ends; not all randoms."),
 "C24": ("exhaustive enumeration of the settings of the log times exchanges of both sides with every kind of message, failure and changed byte at every point, each setting in a process of its own; compared with the run without a log, the text searched for all secrets", "exploration",
         "15800 exchanges (thorough more) with the four levels, 2000 of them with seven other settings: all suites, with and without a key log that works or fails, with and without client authentication and ChangeCipherSpec, all points, data and alerts of all kinds, message and record types, single changed bytes of hellos and certificates; secrets are searched as bytes, hex, lists, numbers and base64 in parts of 6 bytes."),
 "C22": ("exhaustive enumeration of transport failures at every operation, after every byte and in pairs, on real sessions", "fault_enumeration",
         "Six to thirteen kinds of failure at every read and write call of sessions of both sides in several segmentations, end and error after every byte (inside of the large records thinned out), all pairs of failures of the unsegmented session; thorough adds kinds, suites and segmentations."),
}
import importlib.util
extra = os.path.join(here, "checks.json")
if os.path.exists(extra):
    C.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the environment is controlled by defining the libc symbols the standard library uses in the harness executables. known_findings.txt lists the repaired defects."}
for p in props:
    i = p["id"]
    if i in C:
        t, l, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                            "technique": t, "level": l, "level_note": n + REAL})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not finished yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "without")
