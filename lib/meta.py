"""Per-property facts used for the evidence files and for MANIFEST.json (python3 -m lib.meta rewrites MANIFEST.json)."""
import json, os

BASE = [
    "Verus 0.2026.09.13 with Z3, and the vstd specifications of core/alloc functions",
    "the mechanical extraction lib/rsx.py (rules R0-R18, each listed in DESIGN.md; the rules used and what was dropped are in the evidence of the run)",
    "usize is 64 bits, no slice is longer than 2^47-1; machine integers have their exact ranges, overflow is an obligation",
    "rustc/LLVM compile the verified text faithfully",
    "every contract assumed without proof is listed by name in this evidence under `assumed_contracts` (taken from the verified text of the run)",
]
PYO3 = "the pyo3 shim (contracts/50_py.vc, vshim.rs): conversions of ints, bytes, str, float, lists and of exceptions across the Python boundary"
NOM = "nom::Err / IResult and the From conversions of `?` (ax_question*)"
FLOAT = "REAL: f64 operations (conversion, product, powers of two, parsing of a decimal text) and core::str conversions are uninterpreted; the concrete stand-in compares the values"
HASH = "MD5 and SHA-1 (crate md-5, sha1) are uninterpreted functions with their output size; the concrete stand-in compares them with hashlib"
CIPH = "DES-CBC and AES-128-CFB (crates des, aes, cbc, cfb-mode) are uninterpreted, decryption inverts encryption and keeps the length; the concrete stand-in compares them with an independent implementation"
SOCK = "the socket shim: a datagram sent arrives on the wire as given, a datagram received is copied into the buffer given, a read with a timeout returns by it, Instant does not go back"
POOL = "the pool shim: Mutex<Vec<Box<Buffer>>>/Arc give exclusive access; the process-wide pool behind get_buffer_pool starts with idle buffers"
PTR = "Buffer/USM bookmark: subtraction of two addresses inside one slice is the distance in it (vf_offset)"
PYV = "the Python verifier lib/pyvc.py (own VC generator over the ast of /repo's files, Z3) and its assumptions, listed in `assumptions`"
SEARCH = "concrete executions of the built extension are a labelled bounded stand-in and counterexample search, not part of the proof"
SLICES = "core::slice::eq and utf8 of String (ax_slice_eq .., utf8)"

P = {}
DV = "contract-based deductive verification (Verus on functions extracted from /repo/src on every run)"
DP = "contract-based deductive verification (Verus on functions extracted from /repo/src, own VC generator + Z3 on src/gufo/snmp/*.py, on every run)"


def prop(id, technique, note, rule, *trusted):
    P[id] = {"level": "proof", "technique": technique, "note": note, "rule": rule, "trusted": BASE + list(trusted) + [SEARCH]}


prop("C01", DV,
     "All functions of the receive path (BER, PDU, message, USM, decryption, MAC check, receive loop, conversion to Python) are proved panic-free, in bounds and "
     "terminating for all octets; every exception is one of the documented classes (contracts with PyExc, lemma c01_reply). pyo3, nom and the OS are assumed.",
     "datagrams (valid replies, field-wise mutations, truncations, enumerated short strings) x version/security x pending call", PYO3, NOM, FLOAT, HASH, CIPH, SOCK, POOL, SLICES)
prop("C02", DV,
     "Every typed decoder, the varbind list, message and PDU layers and the Python conversion are proved to yield the value X.690 gives; lemmas c02_* state it against an "
     "independent definition (`denoted`). f64 arithmetic itself is uninterpreted.",
     "responses built by an independent encoder x operation", PYO3, NOM, FLOAT)
prop("C03", DP,
     "Encoders, request construction, message assembly, socket sending and the pool are proved to emit exactly enc_cmsg/enc_v3 of the call's arguments; c03_* and c15_c03_* "
     "read the octets back with the decoders' relations and show minimality. Python clients are proved to pass the caller's arguments and to choose the PDU type.",
     "sequences of requests and replies, read back by an independent decoder", PYO3, SOCK, POOL, PTR, HASH, CIPH, PYV, SLICES)
prop("C04", DP,
     "The receive loop is proved to deliver only a datagram `takes` accepts (version, credentials, ids of the last request), to skip the rest, and to end on an undecodable one "
     "(c04_*). The ids are those of the last sends.",
     "a request plus non-matching and matching replies in schedules", PYO3, NOM, SOCK, POOL, HASH, CIPH, PYV, SLICES)
prop("C05", DP,
     "Walk predicates, iterator state, per-reply steps (Rust) and the iterator classes and their buffering (Python) are proved; lemmas c05_* derive, for every finite MIB and "
     "agent answering per RFC 3416, that GetNext and GetBulk walks yield the subtree, in order, once.",
     "finite MIBs x walk calls x agent caps against a reference walk", PYO3, NOM, SOCK, PYV)
prop("C06", DP,
     "Per-reply steps are proved to keep only names below the base and beyond the last one, to continue from the last accepted, and to stop; lemmas c06_* give strict increase and "
     "termination against any agent.",
     "agent strategies (repeating, decreasing, out of subtree, exceptions, empty, oversized) x walk calls", PYO3, NOM, SOCK, PYV)
prop("C07", DP,
     "to_python of get and get_many is proved against the documented mapping (c02_c07_get, c07_many, c07_report), Python clients pass results and exceptions on.",
     "replies with exception values, error status, duplicates x operation", PYO3, NOM, SOCK, PYV)
prop("C08", DV,
     "Parsing and printing of OID text and relative OIDs proved for all strings; c08_* : what is sent is the OID the text denotes or nothing is sent, printing inverts parsing.",
     "OID texts, valid and invalid", PYO3)
prop("C09", DV,
     "Keys, digest input, MAC offset, USM encoding, pooled buffers and session sending proved; c09_sent: the MAC is HMAC-96 under the user's key localized to the engine id in "
     "the message, over the message with zeros in its place. MD5/SHA-1 themselves are uninterpreted.",
     "v3 requests x digest x key type x history, MACs recomputed with hashlib", PYO3, HASH, PTR, POOL, SOCK, SLICES)
prop("C10", DV,
     "unwrap_pdu/is_authentic and the receive loop proved: a delivered non-Report is flagged, its MAC verifies, and with privacy its data was ciphertext (c04_c10_v3).",
     "replies with tampered octets, flags, MAC, body", NOM, HASH, CIPH, PTR, SOCK, SLICES)
prop("C11", DV,
     "Salt, IV, key, padding and framing of encrypt/decrypt proved over uninterpreted block ciphers; c11_sent, c11_received: the ciphertext opens to the request's scoped PDU "
     "and less than a block of padding, for any history.",
     "plaintext sizes x cipher x history against an independent DES/AES", CIPH, HASH, PTR)
prop("C12", DP,
     "Key derivation functions, key types in a session and the exposed utilities proved equal to RFC 3414 A.2 over uninterpreted MD5/SHA-1 (c12_key_types, c12_refused, "
     "c09_c12_history); user classes in Python proved to hand the keys over.",
     "passwords, engine ids, key types against hashlib", PYO3, HASH, PYV)
prop("C13", DP,
     "unwrap_pdu, set_keys, refresh and message stamping proved (learnt, keyed; lemma c13: the next message carries what the last accepted one had); the clients' refresh "
     "sequence in Python proved.",
     "agent identity histories x security x client", PYO3, SOCK, HASH, CIPH, PYV, SLICES)
prop("C14", DV,
     "salt handling proved per message; c14_differ: any two messages among 2^32 (DES) / 2^64 (AES) of one key installation have different salts, whatever happened between; "
     "c14_clear: outside the ciphertext the message is a function of the header fields only.",
     "sequences of requests", CIPH, PTR, SOCK)
prop("C15", DV,
     "Encoders proved to emit the stated octets; c15_* prove these minimal at every nesting level and read back to the same value with nothing left, by the decoders' relations, "
     "for values, community messages, v3 messages and scoped PDUs.",
     "values and messages encoded and decoded", NOM)
prop("C16", DV,
     "from_ber of every type and message layer proved to depend on exactly the declared octets and return the rest; c16_extent, c16_trailing.",
     "(encoding, appended octets) pairs", NOM, FLOAT)
prop("C17", DV,
     "Buffer operations proved in bounds with exact contents under a representation invariant; OutOfBuffer iff it does not fit; c17_*: a request fails only if its message exceeds "
     "the buffer, then nothing is sent.",
     "request sizes swept octet by octet, buffer operation sequences against a shadow model", PYO3, POOL, SOCK)
prop("C18", DP,
     "The blocking wait is proved against a clock that only moves forward: it gives up at the deadline, delivers a match before it (c18_ends, c18_gives_up); a non-blocking call takes a bounded number of unwanted datagrams (c18_in_turn) and "
     "the async client's wait is proved over wait_for. Scheduling slack and the OS timer are assumed.",
     "arrival schedules and storms of unwanted datagrams with wall clock", PYO3, SOCK, PYV)
prop("C19", "contract-based deductive verification (own VC generator + Z3 on src/gufo/snmp/policer.py and the clients, on every run)",
     "RPSPolicer is proved with an invariant over all call times and intervals: delay at most one interval, any k+1 releases span more than (k-1)/rps, bad rates refused; clients "
     "proved to ask the policer before each request.",
     "call-time sequences on the real class", PYV)

NA = []


def manifest():
    from . import lemmas
    checks = []
    for k, v in P.items():
        c = {"property": k, "quick_cmd": f"VERIF_TIER=quick bin/check {k}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {k}",
             "evidence_file": f"evidence/{k}.json", "technique": v["technique"], "level": v["level"], "level_note": v["note"]}
        t = lemmas.roots(k)
        if t:
            c["theorems"] = t
        checks.append(c)
    return {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": NA,
            "notes": "See DESIGN.md. Replay a violation with: bin/check <id> --replay <file>. Fixed defects: KNOWN_FINDINGS.txt. theorems: lemmas of contracts/vprops.rs over the "
                     "function contracts; the functions and Python obligations are listed in the evidence."}


if __name__ == "__main__":
    json.dump(manifest(), open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
