"""What each check runs, and what it may claim."""
import json, os, subprocess
import lsymeng

E2_FUNCS = [
    "core::msp (Node::*, MonotoneSpanProgram::*, to_msp, serialisation)",
    "core::gpsw::scheme (setup, key generation, delegation, re-randomisation, encrypt, decrypt, span_coefs, msg_encode)",
    "core::gpsw (byte encodings)", "core::bilinear_map::bls12_381", "core::engine", "abe_policy (as linked)",
]

E2_ASSUME = [
    "the pairing group is replaced by the exact polynomial algebra it presents (G1, G2, Gt as modules over the scalar "
    "field, the pairing as bilinear product); the real BLS12-381 arithmetic is trusted",
    "rationals/reals stand in for the scalar field: identities are polynomial identities with small rational "
    "coefficients, so they transfer to every prime field of this size; linear systems have small minors",
    "random draws are arbitrary non-zero field elements, identified by the generator output that produced them",
]


def run_symx(m, prop, tier, work):
    exe = m.build("symx", True, prop == "C17")
    out = os.path.join(work, "symx.json")
    e = m.env()
    e["SYMX_BUDGET"] = "560" if tier == "quick" else "7200"
    r = subprocess.run([exe, prop, tier, out], env=e, capture_output=True, text=True,
                       timeout=720 if tier == "quick" else 14000)
    if r.returncode != 0 or not os.path.exists(out):
        raise m.Broken("symx failed (%d): %s" % (r.returncode, (r.stdout + r.stderr)[-2000:]))
    d = json.load(open(out))
    d["functions"] = E2_FUNCS
    return d


ENGINES = {"symx": run_symx, "lsym": lsymeng.run}

PROPS = {}


def prop(pid, engines, explanation, quick, thorough, assumptions):
    PROPS[pid] = {"engines": engines, "explanation": explanation,
                  "bounds": {"quick": quick, "thorough": thorough}, "assumptions": assumptions}
    if engines == ["lsym"]:
        PROPS[pid]["technique"] = "symbolic execution of the crate's LLVM IR (lsym), path conditions and assertions decided by z3"


E2 = ("The real crate is compiled against a symbolic stand-in for the pairing crate and executed: every random draw, "
      "secret, key component and message is a solver variable. ")

prop("C01", ["symx"], E2 +
     "For each formula and attribute list the result of decryption is compared with the encrypted message as a "
     "rational-function identity that z3 must prove for all values; acceptance/refusal must equal the formula's truth "
     "value. The span program of each formula is checked against all attribute sets at once (Boolean unknowns).",
     "all formulas with <=4 distinct leaves x all attribute subsets (3 routes); span programs of all formulas with "
     "<=5 leaves; formulas of <=4 leaves with repeated attributes; left/right/balanced shapes up to 12 leaves at minimal and "
     "one-short attribute sets; keys and ciphertexts of 300 and 66000 elements",
     "all formulas with <=5 leaves, span programs <=6 leaves, shapes up to 24 leaves", E2_ASSUME)
prop("C02", ["symx"], E2 +
     "Issue/encrypt/rotate/serialise histories run through the real engine and policy code against an independent "
     "reference policy; message equality is a solver obligation, authorisation must match the reference.",
     "4 policies (2 axes, <=5 attributes, hierarchical and not), 44 access policies, 13 ciphertext attribute lists, 10 "
     "histories with up to 3 rotations; every history of <=5 events for 8 pairs of access policy and attribute list",
     "4-leaf access policies; every history of <=6 events", E2_ASSUME)
prop("C03", ["symx"], E2 +
     "Delegated and re-randomised keys must decrypt to the exact message (solver identity) precisely when the "
     "restricted formula holds; new attributes must be refused; material must be fresh.",
     "all formulas <=4 leaves, all attribute subsets, chains of <=2 restrictions/re-randomisations, a slice of the 5-leaf "
     "formulas, shapes of 9 leaves; chains of 8 re-randomisations and of 6 mixed steps; keys of 300 and 66000 elements; delegation by named access policies with rotations, 2 policies, 24 access policies",
     "larger slices of 5 and 6 leaves, shapes of 16 leaves", E2_ASSUME)
prop("C04", ["symx"], E2 +
     "Everything a coalition holds (key and delegation elements, public key, ciphertexts) is collected from the real "
     "code's output; z3 decides whether any linear combination of pairing products and target elements isolates a "
     "plaintext whose attributes (Boolean unknowns) satisfy none of the held keys.",
     "3 attributes, <=3 keys (fresh, duplicated, delegated, re-randomised), <=2 ciphertexts, formulas with <=3 leaves; "
     "single and doubled keys over 4 attributes",
     "all pairs of 3-leaf keys, 3-leaf keys against 2 ciphertexts, pairs and delegations over 4 attributes",
     E2_ASSUME + ["generic group adversary: one linear combination over one level of pairing"])
prop("C05", ["symx"], E2 +
     "Every key, ciphertext, plaintext and span program is written to bytes and read back; bytes, announced lengths, "
     "documented lengths and equality must agree for all values (each canonical encoding is a solver obligation), and "
     "truncations must be refused.",
     "all formulas <=4 leaves x attribute subsets, sizes up to 300, 9-leaf shapes; keys and ciphertexts of 255 .. 70000 elements", "all formulas <=5 leaves", E2_ASSUME)
prop("C12", ["symx"], E2 +
     "The encapsulated symmetric key must be recovered at every requested length by authorised keys only, "
     "encapsulations must be fresh.",
     "24 lengths 0..1000 and some up to 2^20, formulas <=3 leaves, 5 attribute lists", "35 lengths 0..70000, formulas of 4 leaves",
     E2_ASSUME + ["SHAKE-256 runs concretely on the canonical encodings: distinct symbolic values have distinct encodings"])
prop("C13", ["symx"], E2 +
     "For every creation/rotation history within the declared capacity each attribute value must be usable end to end.",
     "capacity <=7, every split between attributes and rotations, every order of rotations (when <=100, else two); some capacities 255..66000", "capacity <=10, <=1000 orders", E2_ASSUME)
prop("C14", ["symx"], E2 +
     "Operations with attributes beyond the key material must return an error, never crash or succeed wrongly.",
     "key sizes 0..6 x second authority sizes 0..2, formulas and lists with attributes up to 2^32-1", "key sizes 0..9", E2_ASSUME)
prop("C15", ["symx"], E2 +
     "Span-program matrices with symbolic entries: every feasible path of the linear solver is explored (branches "
     "decided by z3); returned coefficients must span the target and refusals must be provably unsolvable.",
     "fully symbolic up to 3x2/2x3/4x1; 3x3 with 3 and 4x4 with 2 symbolic entries (a slice of the positions); keys up to 2x2/3x1",
     "fully symbolic 3x3, 4x2, 2x4, 5x1; all position patterns", E2_ASSUME)

E1 = ("/repo is compiled to LLVM IR together with a harness; the IR is executed symbolically: input bytes, lengths, "
      "handles are solver variables, every branch, memory access, allocation size, panic and assertion is decided over "
      "all their values. Counterexamples are run natively before being reported. ")
E1_ASSUME = [
    "the pairing group, AES-GCM, the random generator and the regular expression crate are replaced by small exact or "
    "ideal stand-ins (mock/): group elements are integers modulo a small prime with the real encodings' lengths and "
    "validity pattern, AES-GCM opens exactly what it sealed",
    "hash maps hash every key alike (order and collisions are not observable otherwise)",
    "numbers printed in error messages are one representative value unless the harness reads the text",
    "call depth <= 400, optimised IR of the installed compiler; std is executed as its IR, the allocator never fails",
]

prop("C06", ["lsym"], E1 +
     "Every reader gets n arbitrary bytes in a buffer of exactly that size, with allocation limited to 64 n + 1024 bytes; "
     "any panic, out-of-bounds access, excess allocation or unbounded loop on a feasible path is a violation.",
     "16 readers at 37 lengths in 0..300, header readers at lengths in 0..120, opening arbitrary headers, encapsulations and blocks at lengths in 0..120",
     "every length up to 200 (160 for headers) and some up to 450", E1_ASSUME)
prop("C07", ["lsym"], E1 +
     "Headers are made by the real code for arbitrary metadata and opened again; length field, key, identifier and "
     "additional data must agree; every altered length field, truncation and altered byte is refused or harmless.",
     "11 identifier x 10 additional data lengths up to 33, contents arbitrary; some lengths up to 70000 (one repeated byte with marked places); 20, 300 and 1400 attributes", "38 x 39 lengths up to 200", E1_ASSUME)
prop("C08", ["lsym"], E1 +
     "Blocks of arbitrary content, identifier and block number; round trip, exact size, refusal beyond the maximum, "
     "refusal under any other identifier or number and of any altered byte.",
     "block maximum 24; clear texts 0..33 and 48, 8 identifier lengths up to 33; 6 x 6 pairs of identifier lengths; some lengths up to 70001 (one repeated byte with marked places)",
     "clear texts 0..99, identifiers 0..39, 16 x 16 pairs", E1_ASSUME)
prop("C09", ["lsym"], E1 +
     "Every C entry point with arbitrary signed lengths and announced capacities, each pointer null in turn, output "
     "buffers in memory of exactly the announced size (any write outside is a violation), arbitrary short input texts.",
     "22 entry-point situations; announced lengths arbitrary 32-bit; capacities up to 500 (headers) and 1500 (keys); input texts of <= 2 arbitrary bytes",
     "texts of <= 3 arbitrary bytes, more block sizes", E1_ASSUME)
prop("C10", ["lsym"], E1 +
     "Histories of create (two materials), use and destroy with arbitrary 32-bit handles against a list of live handles. "
     "Two threads, each making one call, interrupted at arbitrary shared accesses (the places are solver variables).",
     "histories of 5 operations from one first operation, both kinds of cache; 300 caches at once; the two kinds together; a failed creation; "
     "9 pairs of concurrent calls per kind with <= 2 preemptions",
     "6 operations, both first operations; 1000 caches; <= 3 preemptions", E1_ASSUME + [
         "fewer than 2^31 creations", "two threads, sequentially consistent memory, preemption before accesses to atomics and "
         "mutable globals that exist before the threads do"])
prop("C11", ["lsym"], E1 +
     "Texts of arbitrary characters are given to the real parser and to an independent reader of the grammar; they must "
     "accept the same texts with the same tree; every tree written with parentheses reads back as itself.",
     "arbitrary bytes up to length 3, arbitrary ASCII up to 4, up to 7 characters of ' ()&|7x'; numbers around 2^32; trees of <= 5 operands; texts nested 200 deep, chains of 100 operators, refusal of 1500 levels and 5000/20000 operators",
     "bytes 4, ASCII 5, 8 characters, trees of 6", E1_ASSUME + ["a call tree of more than 1200 frames (24000 with drop glue) counts as an exhausted stack; it is replayed natively with 512 KB of stack"])
prop("C16", ["lsym"], E1 +
     "Arbitrary messages set, failures provoked, in every order of two; then the last error is read with an arbitrary "
     "announced size into buffers of exact capacity, read again, and compared. Two threads set, fail and read at once.",
     "messages of <= 2 arbitrary bytes, capacities 0,1,2,12,20,90, announced sizes arbitrary 32-bit; texts of 30..65540 bytes; 2 threads, <= 2 preemptions",
     "messages of <= 3 bytes; <= 3 preemptions", E1_ASSUME)
prop("C17", ["symx", "lsym"], E2 +
     "Policies, master keys, user keys, delegated keys and rotations are made through the C, Python and WebAssembly "
     "entry points; the core encrypts and decrypts with them and the message must come back exactly when an independent "
     "reference policy says so. Headers, blocks, combined values and sizes are decided on the LLVM IR: made by a "
     "binding from arbitrary contents they are opened by the core, and conversely; altered, cut and arbitrary combined "
     "values are refused; the size is the big-endian number of the first four bytes.",
     "E2: 2 policies, 26 access policies, 8 attribute lists, 3 bindings, one history of <=3 rotations each. E1: metadata of "
     "<=5 bytes, clear texts <=33, values <=17, a few of 300..70000 bytes, arbitrary values <=100 bytes, policies of <=2 axes, <=4 rotations",
     "all histories; metadata <=20 bytes, clear texts <=100, arbitrary values <160 bytes, 3 axes, 6 rotations",
     E2_ASSUME + E1_ASSUME + [
         "the glue of pyo3, wasm-bindgen and js-sys (conversion of arguments and results) is replaced by plain Rust values"])
prop("C18", ["lsym"], E1 +
     "Each argument of each Python and WebAssembly entry point in turn is arbitrary bytes, cut anywhere, or altered in one "
     "byte to anything, the others being valid; policies that say strange things are used; histories of WebAssembly caches.",
     "24 entry points; any block number; arbitrary arguments of <=4 bytes (and up to 80), cuts anywhere, each 3rd to 23rd byte (by kind of argument) "
     "any value; 9 kinds of strange policy; cache histories of 5 operations with arbitrary 32-bit handles, 300 caches at once",
     "arbitrary arguments of <=99 bytes (documents 3, texts 4), every byte of every argument; histories of 6, 1000 caches", E1_ASSUME + [
         "the glue of pyo3, wasm-bindgen and js-sys (conversion of arguments and results) is replaced by plain Rust values",
         "fewer than 2^31 creations; WebAssembly has one thread"])
PROPS["C17"]["technique"] = ("the crate executed over a symbolic pairing group and its LLVM IR executed symbolically; "
                             "identities and assertions decided by z3")
