"""Which analysis decides which property."""
import p32
import p39
import p9
import p4
import p5
import p34
import p36
import p43
import p13

AI = ("Path-sensitive abstract interpretation of the MIR of the public entry points and of everything they reach, with provenance terms for "
      "inputs and for the results of primitives; every outcome is compared with the specification of the property. ")
DEV = ("dev",)

SPECS = {
    "C01": (p39.c01, DEV, AI + "from_entropy on an arbitrary byte array of each of the five sizes, both languages: phrase term = word(11-bit group of entropy || SHA-256 checksum bits), entropy and language kept."),
    "C02": (p39.c02, DEV, AI + "from_phrase and validate on phrases of 0..30, 33, 36 and 48 unknown words, both languages: success exactly under (all words listed) and (checksum bits equal); plus fixed texts judged by the reference rule."),
    "C03": (p39.c03, DEV, AI + "from_phrase on unknown words: entropy bits are the 11-bit indices in order; from_phrase of the phrase of arbitrary entropy gives that entropy."),
    "C04": (p39.c04, DEV, AI + "from_entropy on arbitrary arrays of every length 0..64 and some larger: success exactly for 16, 20, 24, 28, 32; new() per type."),
    "C05": (p39.c05, DEV, AI + "every entropy bit of new() is a distinct bit of the cryptographic generator's output."),
    "C06": (p39.c06, DEV, AI + "Seed::new on arbitrary mnemonics and passphrases: PBKDF2-HMAC-SHA512(NFKD phrase, 'mnemonic'+NFKD passphrase, 2048, 64)."),
    "C07": (p39.c07, DEV, AI + "phrase of an imported mnemonic is the single-space join of the NFKD forms of the words, whatever the white space."),
    "C08": (p39.c08, DEV, AI + "both tables against the committed official lists for an arbitrary position and an arbitrary text."),
    "C09": (p39.c09, DEV, AI + "get_words_by_prefix for every class of prefix: each prefix of a listed word is its own class, every other text falls in one of the classes between them; results compared for each class."),
    "C10": (p39.c10, DEV, AI + "parameters of each type; for_word_count, for_key_size and the like on an arbitrary number."),
    "C11": (p39.c11, DEV, AI + "from_language_code on an arbitrary text and detection from words of either list."),
    "C12": (p39.c12, DEV, AI + "accessors, conversions and format methods on arbitrary mnemonics and seeds."),
    "C13": (p13.c13, DEV, AI + "fields and interior mutability from the type checker; every public operation that returns or can change a mnemonic or seed is run on automatically made arguments and every such value it yields must be consistent."),
    "C20": (p32.c20, DEV, AI + "master key of an arbitrary seed of every accepted length."),
    "C21": (p32.c21, DEV, AI + "derive_child of a private key with an arbitrary parent and an arbitrary child number, both kinds."),
    "C22": (p32.c22, DEV, AI + "derive_child of a public key with an arbitrary parent and an arbitrary child number, both kinds."),
    "C23": (p32.c23, DEV, AI + "the public key of the derived private child and the derived child of the public key are the same term."),
    "C24": (p32.c24, DEV, AI + "derivation along paths of up to several arbitrary steps equals the fold of single steps."),
    "C25": (p32.c25, DEV, AI + "from_str of paths and child numbers on texts made of arbitrary pieces; Display of arbitrary values; one is the inverse of the other."),
    "C26": (p32.c26, DEV, AI + "constructors, accessors and conversions of child numbers on an arbitrary 32-bit value."),
    "C27": (p32.c27, DEV, AI + "derive_child at an arbitrary depth: success only below 255, and the child's depth is one more."),
    "C28": (p32.c28, DEV, AI + "layout of serialised arbitrary keys, byte by byte."),
    "C29": (p32.c29, DEV, AI + "parsing of arbitrary text: acceptance conditions, fields, and parse(serialise(k)) = k."),
    "C30": (p32.c30, DEV, AI + "typed import of arbitrary extended keys."),
    "C31": (p32.c31, DEV, AI + "prefix constants against the registered versions; classification and conversions on arbitrary bytes."),
    "C32": (p32.c32, DEV, AI + "equality of two arbitrary extended private keys."),
    "C33": (p32.c33, DEV, AI + "key conversions and fingerprints on arbitrary keys."),
    "C34": (p34.c34, DEV, AI + "every list operation on paths of arbitrary child numbers, read back through the path's own iterator."),
    "C35": (p34.c35, DEV, AI + "clone, ==, cmp and default of every public value type on arbitrary values."),
    "C36": (p36.c36, DEV, AI + "the kind of error, and the number it carries, of every outcome that refuses an arbitrary input of a known reason."),
    "C40": (p32.c40, DEV, AI + "ecdsa_sign on arbitrary digest of every length 0..64 and an arbitrary key."),
    "C41": (p32.c41, DEV, AI + "the RIPEMD helper on arbitrary messages of several lengths and of unknown length."),
    "C42": (p4.c42, ("dev", "release"), AI + "no outcome of any analysed run is a panic."),
    "C43": (p43.c43, DEV, AI + "destructors of arbitrary secret values are interpreted and must leave zeros; every buffer of every frame of serialization, parsing and comparison is examined when the frame returns."),
    "C44": (p4.c44, DEV, AI + "no error value of any analysed run, and no Debug text of an extended private key, contains a term that depends on secret input."),
    "C48": (p4.c48, DEV, AI + "every outcome reached after a failed primitive step (scalar, point, tweak, Base58, number, word) is an error."),
    "C49": (p5.c49, DEV, AI + "every branch taken and every comparison called while two arbitrary extended private keys are compared is checked for dependence on key bytes and chain code."),
    "C45": (p9.c45, DEV, "Call-graph reachability (calls, closures, drop glue, trait implementations of types handed to foreign code, initialisers of statics) from every public operation to sources of nondeterminism; statics and interior mutability from the type checker."),
    "C46": (p9.c46, DEV, "Call-graph reachability from every public operation to functions with effects; unsafe code, statics and thread-locals of the crate enumerated by the compiler."),
    "C47": (p9.c47, DEV, "Send, Sync and interior mutability of every public type as decided by the compiler's trait solver; statics enumerated."),
}

TECH = {"C45": "call-graph effect analysis", "C46": "call-graph effect analysis", "C47": "compiler trait queries on public types"}
NOTES = {}
