"""writes properties.jsonl and MANIFEST.json (run by hand after editing)"""
import json, os
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/core/gpsw/scheme.rs"
M = "src/core/msp.rs"
G = "src/core/gpsw/mod.rs"
B = "src/core/bilinear_map/bls12_381.rs"
E = "src/core/engine.rs"
H = "src/interfaces/hybrid_crypto/statics.rs"
FH = "src/interfaces/ffi/hybrid_gpsw_aes.rs"
FK = "src/interfaces/ffi/generate_gpsw_keys.rs"
FE = "src/interfaces/ffi/error.rs"


def p(i, title, st, over, q, why, files, mech):
    return {"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
            "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}


LIST = [
 p("C01", "Decryption recovers the exact message iff the formula is satisfied",
   "A user key issued for a monotone and/or formula decrypts a ciphertext to exactly the encrypted message whenever the ciphertext's attributes satisfy the formula. When they do not satisfy it, decryption returns no plaintext. A formula that uses an attribute more than once is refused or follows the same rule. This holds for every formula, every attribute list, every key and message, with or without a trip through the byte encodings.",
   ["inputs", "configurations"], "every formula, every attribute list (any order, extra or repeated attributes), every random draw and every message",
   "Tests run a handful of fixed formulas with a few attribute lists and one random draw each.",
   [S, M, B, G], [("formula to span program", M + " Node::to_msp"), ("linear reconstruction", S + " span_coefs"), ("key issue / encrypt / decrypt", S)]),
 p("C02", "Named policies keep their meaning across hierarchy, rotation and JSON",
   "A key issued for an access policy over named attributes opens a ciphertext exactly when the ciphertext's attribute names, at their values when it was encrypted, satisfy the policy as it stood when the key was issued: in a hierarchical axis a higher attribute covers the lower ones, a rotated attribute locks out older keys for new ciphertexts while refreshed keys still open old ciphertexts, and the 'all' policy covers everything that existed. Serialising the policy anywhere in the history changes nothing.",
   ["histories", "inputs"], "every policy, access policy, ciphertext attribute list and history of rotations, encryptions, key issues and serialisations",
   "Tests fix one policy and two or three histories.",
   [E, M], [("policy to formula", M + " policy_to_node / " + E), ("attribute resolution", E + " encrypt")]),
 p("C03", "Delegated and re-randomised keys work and never widen access",
   "A key derived from another key by re-randomisation, or by delegation to a documented restriction of its formula, opens exactly the ciphertexts satisfying the derived formula and yields the exact message. Delegation to an attribute the parent does not have is refused. Any chain of such derivations behaves the same.",
   ["inputs", "histories"], "every parent formula, restriction, chain, attribute list and random draw",
   "Tests delegate from two fixed formulas and check one attribute list each.",
   [S, M], [("delegation and re-randomisation", S + " key_delegation")]),
 p("C04", "Unauthorised coalitions learn nothing; randomness is never reused",
   "No coalition of users holding keys (issued, delegated or re-randomised), together with all public material, can compute the plaintext of a ciphertext whose attributes satisfy none of the coalition's formulas, however they combine their keys. Keys and ciphertexts produced separately share no randomness, and a key never opens a ciphertext of another authority.",
   ["inputs", "configurations"], "every set of keys, every set of ciphertext attributes and every linear combination the coalition may form",
   "Tests can only check that one specific decryption attempt fails.",
   [S, B], [("per-key and per-ciphertext randomness", S), ("secret sharing", S + " key_generation")]),
 p("C05", "Keys, ciphertexts, messages survive serialisation with exact lengths",
   "Writing any key, ciphertext, message or span program to bytes and reading it back gives an equal, equally usable object. The announced length always equals the number of bytes produced, and a shortened encoding is refused rather than misread.",
   ["inputs"], "every object of every size (non-empty attribute lists) and every value of its components",
   "Tests round-trip single objects of one size.",
   [G, S, M, B], [("byte encodings", G + " AsBytes"), ("composite encodings", S + ", " + M)]),
 p("C06", "Malformed bytes never crash, hang or exhaust memory",
   "Reading a key, ciphertext, message, span program, number or hybrid header from arbitrary bytes of any length either succeeds or returns an error: it never panics, never reads outside the bytes given, and never allocates memory out of proportion to them.",
   ["inputs"], "every byte string",
   "Tests feed only well-formed encodings and a few fixed corruptions.",
   [G, S, M, B, H], [("length checks in the readers", G + ", " + S + ", " + M)]),
 p("C07", "Hybrid headers round-trip key and metadata",
   "Decrypting a hybrid header produced for a satisfied policy returns the same symmetric key, resource identifier and additional data that encryption used or was given, whatever their content and presence (additional data given as empty may be read back as absent). The header starts with the big-endian length of the key encapsulation; a header cut anywhere, or whose length field is altered, is refused, except that one cut exactly behind the key encapsulation is a header without metadata.",
   ["inputs"], "every metadata (absent, empty or any bytes) and every symmetric key / encapsulation content",
   "Tests use one metadata value and one key.",
   [H], [("header layout", H + " encrypt_hybrid_header / decrypt_hybrid_header"), ("header byte encodings", H)]),
 p("C08", "Hybrid blocks round-trip, respect limits and are bound to their position",
   "A block encrypted under a resource identifier and block number decrypts to the same clear text under the same identifier and number, and its size is the clear text plus the fixed announced overhead. Clear texts or ciphertexts beyond the stated maximum are refused. The identifier and block number are always authenticated together with the data.",
   ["inputs"], "every clear text, identifier, block number and maximum size",
   "Tests encrypt one block of one size.",
   [H], [("block functions", H + " encrypt_hybrid_block / decrypt_hybrid_block")]),
 p("C09", "The C interface never writes outside the buffers it is given",
   "For any pointer (null included), announced length (negative included) and buffer capacity, every C entry point either fails with an error and reports the size it needs where documented, or writes at most the announced number of bytes and sets the length to exactly what it wrote. It never crashes.",
   ["inputs"], "every combination of null/valid pointers, signed lengths and capacities",
   "Tests call each function once with a generous buffer.",
   [FH, FK], [("length checks before copying", FH + ", " + FK)]),
 p("C10", "Cache handles are unique, isolated and die when destroyed",
   "Every cache created through the C interface gets a handle that was never issued before (for fewer than 2^32 creations), operations through a handle use exactly the material that cache was created with, and encrypting or decrypting through a destroyed or never issued handle returns an error whatever is created later. Destroying one cache never affects another, and destroying what does not exist affects none. All of this also holds when several threads use the interface at once.",
   ["histories", "schedules"], "every sequence and every interleaving of creating, using and destroying encryption and decryption caches",
   "Tests create and destroy one cache of each kind.",
   [FH], [("handle counters and maps", FH)]),
 p("C11", "The formula text parser is total and faithful",
   "Parsing a text formula never crashes, however long or deeply nested it is (beyond 200 nested parentheses or 10000 operators it may be refused); otherwise it accepts exactly the texts of the documented grammar (integers, parentheses, operators to the right of an operand, spaces ignored) and returns the formula a reader of that grammar reads. A formula written with parentheses in this syntax parses back to itself.",
   ["inputs"], "every text",
   "Tests parse a few fixed strings.",
   [M], [("recursive parser", M + " Node::parse")]),
 p("C12", "Encapsulated symmetric keys agree for every length",
   "Decapsulation with an authorised key returns the symmetric key that encapsulation produced, for every requested length, and the same encapsulation opened at another length agrees on the common prefix. Unauthorised keys get nothing and two encapsulations never share a key.",
   ["inputs"], "every key length, attribute list, formula and random draw",
   "Tests use two lengths.",
   [E, B], [("key derivation from the target group", E + " generate_symmetric_key / decrypt_symmetric_key")]),
 p("C13", "Every attribute value a policy may ever create is usable",
   "With master keys generated for a policy, every attribute value obtainable by creating and rotating attributes up to the policy's declared maximum can be used to encrypt, to issue keys and to decrypt. Rotation beyond the maximum is refused.",
   ["histories", "configurations"], "every capacity and every history of creations and rotations within it",
   "Tests never reach the declared maximum.",
   [E], [("key size derived from the policy", E + " generate_master_key")]),
 p("C14", "Mismatched or out-of-range material is refused with an error",
   "Using an attribute the key material does not cover, or combining keys and ciphertexts of different sizes, returns an error or a refusal: no operation panics or silently produces an unusable result.",
   ["inputs", "configurations"], "every size of key material, attribute number and formula",
   "Tests use matching material only.",
   [S], [("range checks", S + " encrypt / key_generation / key_delegation")]),
 p("C15", "Linear reconstruction is right for every span program",
   "For every matrix over the scalar field, the reconstruction either returns coefficients that combine the rows into the all-ones target or reports that none exist, and is right in both cases. Decryption with a key carrying such a span program agrees with it.",
   ["inputs"], "every matrix and every subset of its rows",
   "Tests solve three fixed matrices.",
   [S], [("Gaussian elimination", S + " span_coefs")]),
 p("C16", "The C error channel reports the last error without overrun",
   "Reading the last error copies at most the announced buffer size, ends with a zero byte, sets the length to the text length written, and clears the error; the text is that of the latest failure or of the message set by the caller. Each thread has its own last error. Null pointers and too small buffers are refused.",
   ["inputs", "histories", "schedules"], "every message, buffer size, order of calls and interleaving of threads",
   "Tests read one error with a large buffer.",
   [FE], [("thread local last error", FE)]),
 p("C17", "Language bindings agree with the core",
   "Keys, rotations, headers, blocks and combined encrypted values produced through the C, Python and WebAssembly entry points are exactly what the core library produces and can be opened by it, and conversely. A combined value is the 4-byte big-endian header length, the header and the block, and a malformed one is refused.",
   ["inputs"], "every policy, access policy, metadata and clear text",
   "Tests check each binding against itself on one value.",
   [FK, FH, "src/interfaces/pyo3/generate_gpsw_keys.rs", "src/interfaces/pyo3/hybrid_gpsw_aes.rs", "src/interfaces/wasm_bindgen/"], [("binding glue", FK + ", " + FH)]),
 p("C18", "Python and WebAssembly entry points always answer",
   "Whatever a caller passes to an entry point of the Python or WebAssembly interface (documents, keys, access policies, attribute lists, headers, blocks, combined values, identifiers, cache handles), the call returns a value or raises an error; it never panics. A sealed value that was cut short, altered or made up is refused. Every WebAssembly cache gets a handle never issued before, encrypting or decrypting through a handle uses exactly the material its cache was created with, and a handle that was destroyed or never issued is answered with an error, whatever happens to other caches.",
   ["inputs", "histories"], "every argument, and every sequence of creating, using and destroying caches",
   "Tests call each binding with valid arguments and destroy no cache before using it.",
   ["src/interfaces/pyo3/generate_gpsw_keys.rs", "src/interfaces/pyo3/hybrid_gpsw_aes.rs", "src/interfaces/wasm_bindgen/"],
   [("entry points", "src/interfaces/pyo3/*, src/interfaces/wasm_bindgen/* (#[pyfunction], #[wasm_bindgen])"), ("cache maps", "src/interfaces/wasm_bindgen/hybrid_gpsw_aes_{en,de}cryption.rs")]),
]

NA = {}
NOT_YET = "the symbolic engine for this part of the code is not built yet"

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in LIST:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in LIST:
        i = x["id"]
        if i in props.PROPS:
            P = props.PROPS[i]
            checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                           "technique": P.get("technique", "symbolic execution of the real crate over a symbolic pairing group, z3"),
                           "level": "other",
                           "level_note": "Bounded: " + P["bounds"]["quick"] + ". Within them every symbolic value is decided by z3; "
                                         + "trusts: " + "; ".join(P["assumptions"])})
        else:
            na.append({"property": i, "reason": NA.get(i, NOT_YET)})
    json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
               "notes": "see DESIGN.md; known findings and repaired defects in known_findings.json"},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
