"""Per property: Verus units that decide it (units), units whose contracts it imports (deps),
bounded replays on the real code, and what is assumed."""

def b(name, **k):
    return dict(kind="bin", name=name, **k)

UNIT_OPTS = {  # solver budget and the cost of the vacuity gate, per unit
    "tver": dict(rlimit=150, vacuity="thorough"), "tauth": dict(rlimit=200, vacuity="thorough"),
    "mpcrec": dict(rlimit=120, vacuity="thorough"), "mpcfol": dict(rlimit=80, vacuity="thorough"),
    "tlst": dict(rlimit=80, vacuity="thorough"), "enums": dict(vacuity="thorough"), "hsbase": dict(vacuity="thorough"), "hsparts": dict(vacuity="thorough"),
    "hsexts": dict(rlimit=100, vacuity="thorough"), "hsmsg": dict(rlimit=80, vacuity="thorough"), "hspay": dict(rlimit=100, vacuity="thorough"),
    "suites": dict(vacuity="thorough"), "hsq": dict(rlimit=80, vacuity="thorough"), "msgq": dict(rlimit=100, vacuity="thorough"), "hstop": dict(rlimit=400, vacuity="thorough"), "attest": dict(vacuity="thorough"), "identity": dict(vacuity="thorough"), "hsrec": dict(vacuity="thorough"), "iana": dict(vacuity="thorough"),
}

RS = "the rangeset crate is external: RangeSet is a canonical list of ranges and its operations (from, union, difference, is_subset, iteration, len, end) have the set semantics assumed in units/rangeset.inc"
SHIM = "crates/core does not build offline; the replay compiles its real sources against stand-ins (/verif/shims) for the missing dependencies rangeset, rs_merkle, blake3, tiny-keccak, opaque-debug, bcs; the proof does not depend on them"

EXT_HASH = "hash functions (sha2, blake3, tiny-keccak) are external: uninterpreted functions of the bytes fed to them in order; collision resistance is not proved"
WEBPKI = "rustls-webpki and rustls-pki-types are external: certificate parsing, path building, name matching, trust anchors and signature checking are uninterpreted functions of their arguments"
BCS = "canonical serialization (bcs) and the domain separators (impl_domain_separator!, blake3 of the type name) are uninterpreted functions of the value and of its type; that they are injective and distinct is not proved"

TOY = "the MPC machinery of crates/mpc-tls (mpz) does not build offline; the replay compiles the real sources of the crate against a toy two-party machine (/verif/shims/mpz) that computes in the clear with the real AES-128-GCM and TLS 1.2 PRF and records what is opened to whom; the proof does not depend on it"
SEQ = "the async functions are read sequentially (an await point is a call; try_join runs all its branches), locks are free when taken, Arc<Mutex<T>> is T"
CIPHER = "the MPC ciphers and tags (MpcAesGcm, AesGcm, compute_tags, verify_tags, VM assignments and decodings) are external: they act as AES-CTR key stream and GCM tag, uninterpreted functions of key, nonce and data, when both parties follow the protocol"

PROPS = {
    "T01": dict(units=["codec"], replay=[b("t01")], bound="byte strings up to 700 bytes, vectors up to 131071 items"),
    "T02": dict(units=["record", "deframer"], deps=["codec"], replay=[b("t02")],
                bound="streams of up to 6 records under random chunkings",
                assumptions=["the byte source is any implementation that writes at most the window it is given and returns a count within it (VxRead stands in for `dyn io::Read`)"]),
    "T03": dict(units=["fragmenter"], deps=["codec", "record"], replay=[b("t03")], bound="payloads up to 49152 bytes"),
    "T04": dict(units=["joiner"], deps=["codec"], imports={u: "T05" for u in ["enums", "hsbase", "hsparts", "hsexts", "hsmsg", "hspay", "hstop", "hsrec"]}, replay=[b("t04")],
                bound="streams of up to 6 handshake messages of up to 70 000 bytes under random fragmentation"),
    "T05": dict(units=["enums", "hsbase", "hsparts", "hsexts", "hsmsg", "hspay", "hstop", "hsrec"], deps=["codec"], replay=[b("t05")],
                bound="generated and damaged messages of every handshake type, both versions, up to 64 KiB"),
    "T06": dict(units=["enums", "iana"], deps=["codec"], replay=[b("t06")], bound="every 8-bit and 16-bit code of every registry (exhaustive on the compiled code)",
                assumptions=["the table of assigned code points (tools/iana/iana.txt) was transcribed once from the registries as this project names them"]),
    "T07": dict(units=["prf"], replay=[b("t07")], bound="secrets, labels, seeds up to 200 bytes, output up to 264 bytes",
                assumptions=["HMAC-SHA256 is an uninterpreted function of key and message with a 32-byte result; its implementation (hmac, sha2 crates) is trusted"]),
    "T08": dict(units=["aad"], deps=["codec"], replay=[b("t08", budget={"quick": 5, "thorough": 60})], bound="boundary and random sequence numbers, types, versions and lengths"),
    "T09": dict(units=["auth"], replay=[b("t09", budget={"quick": 25, "thorough": 240})], bound="certificates and chains generated over 9 keys, every signature scheme, random SCT lists, times and names",
                assumptions=["webpki (certificate parsing, path building, name matching, signature checking), ring and sct are external: their results are uninterpreted functions of their arguments, a signature verifying only under an algorithm made for the certificate's kind of key",
                             "`&mut dyn Iterator<Item = &[u8]>` over SCTs is taken as the slice of its items; the `&'static dyn SignatureVerificationAlgorithm` constants as an enumeration of the eleven webpki algorithms with the AlgorithmIdentifiers they report"]),
    "C16": dict(units=["transcript"], replay=[b("c16", crate="replay2")], bound="transcripts of up to 80 bytes per direction, random range sets, damaged wire forms",
                assumptions=[RS, SHIM]),
    "C17": dict(units=["proof", "tbuild", "commit"], imports={"transcript": "C16", "hash": "C15"}, replay=[b("c17", crate="replay2")],
                bound="transcripts of up to 16 bytes per direction, up to 6 committed sets, 3 revealed sets, 6 successive tamperings",
                assumptions=[RS, SHIM, "RangeSet::cover_by (rangeset crate) chooses only sets inside the query, returns the rest, and leaves no position that a set inside the query contains",
                             "hash algorithms are functions of the message (uninterpreted); binding of the commitment rests on their collision resistance, which is not proved",
                             "HashSet (std) of commitments/kinds/entries has set semantics up to the derived equality"]),
    "C18": dict(units=["tlst"], deps=["codec"], imports={**{u: "T05" for u in ["enums", "hsbase", "hsparts", "hsexts", "hsmsg", "hspay", "hstop"]}, "record": "T02"}, replay=[b("c18", crate="replay2")],
                bound="generated two-way handshakes of up to 8 messages per direction in any fragmentation, up to 6 encrypted records per direction up to 18431 bytes, each with or without damage",
                assumptions=["sha2 is external: an uninterpreted function of the bytes fed in order", "webpki and spki are external: the named curve of a certificate's key is a function of the certificate",
                             "the proof decides what a built transcript contains and which records are refused; that no well-formed handshake is refused is decided for the digests and records, and checked by the replay for the key exchange",
                             "std: windows(2), (n..).zip(skip(k)) and slices of at most isize::MAX elements", SHIM]),
    "C19": dict(units=["config"], imports={"hash": "C15", "transcript": "C16", "commit": "C17"}, replay=[b("c19", crate="replay2")],
                bound="every setter in any order and combination, limits around 0, 32, each other and the machine maximum; transcripts up to 29 bytes a side with up to 5 reveal steps",
                assumptions=["rangeset is external: union and ends of a range set are those of the set of positions", "serde derives write and read the fields in order (checked by the replay)", "the derived Default of a builder is the all-unset value (checked by the replay)", SHIM]),
    "C15": dict(units=["hash"], replay=[b("c15", crate="replay2")], bound="messages up to 400 bytes, prefixes up to 90, hash values of every length up to 199 bytes, every identifier",
                assumptions=[EXT_HASH, "serde: a sequence yields its elements in order and may fail at any point", SHIM]),
    "A20": dict(units=["identity"], imports={"codec": "T01", "hash": "C15", "signing": "A28"}, replay=[b("a20", crate="replay2", budget={"quick": 20, "thorough": 200})],
                bound="generated handshakes over several keys and signature schemes, up to 3 damages per case",
                assumptions=[WEBPKI, EXT_HASH, BCS, "the key exchange parameters of a key longer than 255 bytes (which no P-256 key has) are left unspecified", SHIM]),
    "A28": dict(units=["signing"], imports={"hash": "C15"}, replay=[b("a28", crate="replay2")], bound="random keys, messages up to 199 bytes, damaged signatures and keys of every algorithm",
                assumptions=["k256, p256 (ECDSA) are external: key and signature parsing and verification are uninterpreted, and a signature they make verifies under its own key; the replay runs on checksum stand-ins for them", EXT_HASH, SHIM]),
    "A27": dict(units=["merkle", "attest"], imports={"codec": "T01", "hash": "C15", "transcript": "C16", "proof": "C17", "identity": "A20", "signing": "A28"},
                replay=[b("a27", crate="replay2", budget={"quick": 25, "thorough": 240})], bound="generated requests, attestations and presentations over small transcripts, with up to several damages each",
                assumptions=["rs_merkle is external: its root is a function of the hash function and the leaves, and a proof made by it for some leaves verifies for exactly those leaves, indices and leaf count; that no other leaves verify rests on collision resistance", BCS, EXT_HASH,
                             "slice sorting (std) is a stable sort; an extension validator is a function of the extensions it is given; a body has fewer than 2^32 - 65536 fields", SHIM]),
    "T11": dict(units=["suites"], deps=["codec"], imports={"enums": "T05"}, replay=[b("t11")], bound="offers of up to 7 suites, every 16-bit signature scheme, keys up to 255 bytes",
                assumptions=["the parameters of each suite were transcribed once from RFC 5288, 5289, 7905 and 8446"]),
    "T12": dict(units=["hsq", "msgq"], deps=["codec"], imports={u: "T05" for u in ["enums", "hsbase", "hsparts", "hsexts", "hsmsg", "hspay", "hstop", "hsrec"]}, replay=[b("t12")],
                bound="generated hellos, certificate messages, requests and tickets with up to 8 extensions, repeated types included",
                assumptions=["HashSet (std) of extension codes: membership only", "rustls_pki_types::DnsName is external: a name of 1 to 253 bytes, valid without its trailing dot if valid with it"]),
    "T13": dict(units=["x509"], replay=[b("t13")], bound="every length up to 1199 and boundary lengths up to 2^24+65793"),
    "T14": dict(units=["names"], imports={"x509": "T13"}, replay=[b("t14")], bound="generated names of up to 6 labels, up to 4 anchors of subjects up to 65536 bytes",
                assumptions=["rustls_pki_types is external: DnsName::try_from decides which texts are DNS names (uninterpreted) and a DnsName is 1 to 253 bytes; IP addresses are 4 or 16 bytes"]),
    "M20": dict(units=["mpcrec"], deps=["codec"], replay=[b("m20", crate="replay3", budget={"quick": 25, "thorough": 240})],
                bound="programs of up to 22 operations of both parties over records of up to 48 bytes, with damaged records and exhausted limits",
                assumptions=[CIPHER, SEQ, "fewer than 2^64 - 1 records per direction", TOY]),
    "M21": dict(units=["mpcfol"], imports={"mpcprf": "M23", "mpcrec": "M20", "mpcutil": "M22", "tlst": "C18"}, replay=[b("m21", crate="replay3", budget={"quick": 30, "thorough": 300})],
                bound="honest and deviating leader scripts: messages missing, repeated, reordered and altered, clocks off by up to some seconds",
                assumptions=[CIPHER, SEQ, "the PRF, the key exchange and the VM are external: a seed given to the PRF is the seed of its outputs and the outputs' handles decode to what the parties agree on", "the contract of the transcript builder is the one proved in the unit tlst, restated over its inputs; the record layer's and verify_transcript's are imported from mpcrec and mpcutil",
                             "fewer than 2^64 - 1 messages; the system clock is not before 1970", TOY]),
    "M22": dict(units=["mpcutil"], deps=["codec"], imports={"mpcrec": "M20", "tlst": "C18"}, replay=[b("m22", crate="replay3", budget={"quick": 10, "thorough": 90})],
                bound="records of every length up to 199 bytes, every two-byte alert, random record lists, limits up to 2^62, transcripts of up to 4 records per direction",
                assumptions=["configured limits are at most usize::MAX - 8192", "the builder's setters (derive_builder) store what they are given; ConfigBuilder is written as derive_builder makes it", TOY]),
    "M23": dict(units=["mpcprf"], replay=[b("m23", crate="replay3", budget={"quick": 20, "thorough": 180})],
                bound="random secrets, randoms and hashes in all six mode combinations, the seeds and up to five flushes in every order, some left out",
                assumptions=["the VM is external: a handle stands for one value, an assignment that succeeds makes that value the one assigned, a decoded value is the handle's, a call's output is the circuit's, a Sha256 object hashes what it was fed (mpz)",
                             "the compression function of SHA-256 is not interpreted: `sha2`'s block buffer applies it to whole blocks in order and pads as FIPS 180-4 asks", "the merge and xor circuits compute what their constructors state",
                             "a seed is set at most before the part it seeds was started; session hashes are at most 16 MiB", "machine words have at least 32 bits", TOY]),
    "M24": dict(units=["tauth", "tver", "ttag"], deps=["codec"], imports={"hash": "C15", "transcript": "C16", "commit": "C17", "config": "C19", "identity": "A20"},
                replay=[b("m24", crate="replay3", budget={"quick": 25, "thorough": 240})],
                bound="transcripts of up to 4 records of up to 70 bytes per direction, up to 3 commitments, one deviation of the prover per session; tag proofs over up to 3 records of up to 257 bytes",
                assumptions=["the VM is external: a handle stands for one value, an assignment that succeeds makes that value the one assigned, a decoded value is the handle's, a call's output is the circuit's (mpz, mpz-circuits)",
                             "AES-128, its key schedule, GHASH of whole blocks and the hash functions are uninterpreted", "the record tags were verified when the records were made (M20) or by the tag proof; prove_plaintext and prove_hash, the prover's side, are not under contract",
                             "application data of a direction is at most usize::MAX bytes and 2^32 - 3 blocks a record", RS, TOY]),
}
