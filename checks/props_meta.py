"""Source of properties.jsonl and MANIFEST.json (run: python3 checks/gen.py)."""

C = "crates/tls-core/src/"
K = "crates/core/src/"
A = "crates/attestation/src/"
TL = "crates/tlsn/src/"
MH = "crates/components/hmac-sha256/src/"
MP = "crates/mpc-tls/src/"
M = "crates/tls-core/src/msgs/"

def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    return d

PROPERTIES = [
P("T01", "Wire integers, opaque blobs and length-prefixed vectors are exact and invertible",
  "Encoding an integer (1, 2, 3, 4 or 8 bytes, big endian), a length-prefixed opaque blob or a length-prefixed vector appends exactly its TLS presentation-language form and leaves earlier output alone. Decoding accepts exactly the byte strings that begin with such a form (vectors must split into whole items, and a limited vector must respect its limit), consumes exactly those bytes, never reads past the input, and yields a value that encodes back to the bytes consumed.",
  ["inputs"], "all values and all byte strings, of any length, for every item type",
  "tests try a few values per width; the guarantee is about every length prefix, every truncation point and every item sequence",
  [M + "codec.rs", M + "base.rs"],
  [("Reader", M + "codec.rs"), ("Codec for u8/u16/u24/u32/u64", M + "codec.rs"), ("encode_vec_u8/u16/u24, read_vec_u8/u16/u24_limited", M + "codec.rs"), ("PayloadU8/U16/U24, Certificate", M + "base.rs")]),
P("T02", "TLS records are recovered identically however the bytes arrive",
  "For every byte stream and every way of cutting it into reads, the records delivered are exactly the complete valid records at the front of the stream, in order, with type, version and payload unchanged; an incomplete record is kept until the rest arrives and is never delivered early. A header with an unknown content type, a version that is neither 0x03XX nor one of the assigned codes, a length of 18432 or more, or a zero length on anything but application data marks the stream as corrupt, whatever follows.",
  ["inputs", "schedules"], "all byte streams, all chunkings",
  "tests feed a handful of canned captures; the guarantee is over every stream and every read boundary",
  [M + "message.rs", M + "deframer.rs", M + "base.rs"],
  [("OpaqueMessage::read/encode", M + "message.rs"), ("MessageDeframer::read, try_deframe_one, buf_consume", M + "deframer.rs")]),
P("T03", "Outgoing messages are split into records without loss, within the limit",
  "Splitting a message yields records of the same type and version whose payloads concatenate to the message in order, none larger than the configured limit and none empty unless the message is; records already queued are untouched. A limit is accepted exactly when it is absent or between 32 and 16389 bytes including the 5-byte header, and a refused limit changes nothing.",
  ["inputs", "configurations"], "all payloads and all fragment limits",
  "tests try one or two payload/limit pairs; off-by-one errors sit at multiples of the limit",
  [M + "fragmenter.rs"], [("MessageFragmenter::new/set_max_fragment_size/fragment/fragment_borrow", M + "fragmenter.rs")]),
P("T04", "Handshake messages are reassembled identically however they are fragmented",
  "For every stream of handshake bytes and every way of cutting it into record payloads (several messages per record, messages over many records, empty records), the messages queued are exactly the complete well-formed messages at the front of the stream, in order, each with the version of the record that completed it; the count returned is the number newly queued; an incomplete message is kept until the rest arrives. A message longer than 65535 bytes or one that does not parse is refused, and earlier messages stay queued.",
  ["inputs", "schedules"], "all byte streams, all fragmentations, all versions",
  "tests use a few fixed splits; the guarantee is over every stream and boundary",
  [M + "hsjoiner.rs"], [("HandshakeJoiner::take_message, buf_contains_message, deframe_one", M + "hsjoiner.rs")]),
P("T05", "Handshake, alert and CCS payloads are parsed exactly as the wire says",
  "For every payload and protocol version, a decrypted or plaintext record payload is accepted as a message exactly when it is a complete, well-formed message of its content type under the TLS 1.2 (or 1.3) grammar: no truncated, overlong or trailing data, every nested length consistent, every mandatory list non-empty. What is accepted carries the fields that were on the wire, uses exactly the bytes of the message, and encodes back to exactly the bytes received; every well-formed message encodes to bytes that decode to it again.",
  ["inputs"], "all byte strings, every handshake type, extension and protocol version",
  "tests decode canned hellos and truncations of them; the guarantee is over every nesting of lengths, lists and extensions",
  [M + "handshake.rs", M + "message.rs", M + "persist.rs", M + "alert.rs", M + "ccs.rs"][:2] + [M + "alert.rs", M + "ccs.rs", M + "base.rs", M + "enums.rs"],
  [("HandshakeMessagePayload::read_version/encode", M + "handshake.rs"), ("ClientHelloPayload, ServerHelloPayload, HelloRetryRequest, extensions, certificates, ...", M + "handshake.rs"), ("MessagePayload::new/encode, TryFrom<PlainMessage> for Message", M + "message.rs")]),
P("T06", "Protocol code points are the assigned ones, and unknown ones survive",
  "Every named content type, version, handshake type, alert, extension, cipher suite, group, signature scheme and other registry entry is sent as, and recognised from, its assigned number and no other. A number without a name is kept as Unknown(number) and is sent back unchanged, so converting any code to an entry and back is the identity.",
  ["inputs"], "every 8-bit or 16-bit code of every registry",
  "tests touch a few entries; a swapped or duplicated number in one of 578 rows is invisible to them",
  [M + "enums.rs", M + "macros.rs"],
  [("enum_builder! (From, get_u8/get_u16, Codec)", M + "macros.rs"), ("registry tables", M + "enums.rs")]),
P("T07", "The TLS 1.2 PRF is P_SHA256 of RFC 5246 for every secret, label, seed and length",
  "For every secret, label, seed and output length the key-derivation function overwrites the whole output with the RFC 5246 section 5 stream P_SHA256(secret, label followed by seed), truncated to the requested length. It never fails and the previous content of the output buffer has no influence.",
  ["inputs"], "all secrets, labels, seeds and output lengths",
  "the single test uses one 48-byte output; errors appear at other block counts and partial blocks",
  [C + "prf.rs"], [("prf", C + "prf.rs")]),
P("T08", "Record additional data binds sequence number, type, version and length",
  "The additional authenticated data of a TLS 1.2 AEAD record is the 13 bytes: 8-byte big-endian sequence number, content type, 2-byte version, 2-byte plaintext length, for every value of each. Two records that differ in any of the four therefore never share additional data.",
  ["inputs"], "all sequence numbers, content types, versions and 16-bit lengths",
  "there is no test of the layout; an error shows only for particular values",
  [C + "cipher.rs"], [("make_tls12_aad", C + "cipher.rs")]),
P("T09", "A server is accepted only with a valid chain, name, CT evidence and signature",
  "A server's handshake data is accepted exactly when its chain is non-empty, the leaf parses and chains through the presented intermediates to a trusted root for server authentication at the given time (not before 1970), the certificate transparency policy (if any) is met, the name matches, and the leaf's key signed client random, server random and key exchange parameters, in that order, with the scheme stated. CT: no logs or a passed deadline accepts; otherwise the first valid SCT accepts, a fatal SCT error or only unknown-log SCTs rejects, no SCT accepts. Each scheme stands for exactly its algorithms (TLS 1.2: digest fixed, curve not; TLS 1.3: all fixed, no PKCS#1), and the algorithm reported is the one that verified.",
  ["inputs", "configurations"], "all chains, times, names, SCT lists, signature schemes, keys and messages",
  "tests replay one or two captured handshakes; an accepted forgery needs a combination no capture contains",
  [C + "verify.rs", C + "handshake.rs", C + "cert.rs", C + "ke.rs", C + "anchors.rs"],
  [("WebPkiVerifier::verify_server_cert, CertificateTransparencyPolicy::verify", C + "verify.rs"), ("convert_scheme, verify_sig_using_any_alg, verify_sig_determine_alg, SignatureAlgorithm::from_alg, verify_tls13, construct_tls13_verify_message", C + "verify.rs"), ("HandshakeData::verify", C + "handshake.rs")]),
P("C16", "A partial transcript reveals exactly the authenticated positions",
  "A partial transcript made from a transcript and two position sets has the full length of each direction, the true bytes at the chosen positions and zero everywhere else, and reports exactly those positions as authenticated, the rest as unauthenticated, and complete exactly when nothing is left out. Overwriting unauthenticated positions never touches an authenticated byte or the authenticated sets; merging transcripts of equal lengths (other lengths are refused) or a subsequence adds the other's authenticated bytes and positions and nothing else. The wire form carries only authenticated bytes; reading it back yields the same authenticated content, and forms whose data length or positions do not fit are refused.",
  ["inputs", "histories"], "all transcripts, position sets and sequences of operations",
  "tests try a few fixed sets; a leak or a wrongly authenticated byte needs a particular overlap of ranges",
  [K + "transcript.rs"], [("Transcript::to_partial/get, Subsequence", K + "transcript.rs"), ("PartialTranscript::union_transcript/union_subsequence/set_unauthed/set_unauthed_range", K + "transcript.rs"), ("CompressedPartialTranscript (wire form) and its TryFrom/From", K + "transcript.rs")]),
P("C17", "A transcript proof is accepted exactly when its openings match commitments",
  "Verifying a transcript proof succeeds exactly when the transcript has the stated lengths, every opening uses a known algorithm, lies inside the transcript and hashes (bytes at its positions, then blinder) to one of the given commitments with the same direction, positions and algorithm, and the positions claimed authenticated are exactly the union of the openings, per direction; the result is that transcript. The proof builder lets a position be revealed exactly when it is inside the transcript and under some committed secret; what it builds reveals exactly the requested positions, opens only given secrets inside the request in the preferred order of kinds, and verifies against commitments honestly made from the transcript. Commitment requests outside the transcript are refused, all others are kept as asked.",
  ["inputs", "configurations"], "all transcripts, commitments, proofs (honest or forged), range sets and kind preferences",
  "tests build a handful of honest proofs and one with a wrong blinder; a forgery needs a particular combination of ranges, directions and algorithms",
  [K + "transcript/proof.rs", K + "transcript/commit.rs", K + "transcript/hash.rs"],
  [("TranscriptProof::verify_with_provider", K + "transcript/proof.rs"), ("TranscriptProofBuilder", K + "transcript/proof.rs"), ("hash_plaintext", K + "transcript/hash.rs"), ("TranscriptCommitConfigBuilder", K + "transcript/commit.rs")]),
P("C18", "A TLS transcript holds exactly what its wire bytes and handshake say",
  "Building a transcript from TLS bytes yields, per direction, the record after the first ChangeCipherSpec as the Finished record with number 0, then every later record in order, numbered from 1, each split into 8-byte nonce, ciphertext and 16-byte tag; given the application data, application records get consecutive plaintexts of exactly their length. Version, randoms, certificates, ephemeral key and signature come from the first handshake message of each kind before ChangeCipherSpec, fragmented in any way; an ECDSA scheme takes its curve from the certificate. The session digest covers ClientHello, the server's flight through ServerHelloDone and the client's through ClientKeyExchange; the client Finished digest the whole client flight instead; the server Finished digest every handshake message before it, in wire order. Fields the caller set win over parsed ones; records the caller gives must start with Finished and have increasing numbers. Malformed input is refused, and a transcript's text is its application data in order, refused if a plaintext is missing.",
  ["inputs"], "all byte streams, record fragmentations, handshakes, application data and preset fields",
  "tests parse one recorded connection; every commitment and the identity proof rest on these positions and digests",
  [K + "transcript/tls/builder.rs", K + "transcript/tls.rs"],
  [("TlsTranscriptBuilder::build", K + "transcript/tls/builder.rs"), ("parse_records, split_into_record, validate_seq, validate_finished_record", K + "transcript/tls/builder.rs"), ("compute_handshake_hashes, extract_handshake", K + "transcript/tls/builder.rs"), ("TlsTranscript::sf_hash, to_transcript", K + "transcript/tls.rs")]),
P("C19", "A configuration says exactly what its builder was told, within its limits",
  "Building an MPC-TLS configuration succeeds exactly when the sent and received limits were set and the online receive limit (32 unless set) is at most the total receive limit; it then holds every value set (the last, when set again), no record limits unless set, deferred decryption and the latency setting unless changed. One arriving from a peer is accepted under that same limit rule and keeps its values. A prove configuration reveals, per direction, exactly the union of the ranges asked for (or everything), and refuses a range outside the transcript without changing what is revealed; the request sent to the verifier has the same reveal, the same server identity flag and the commitments configured. Proxy, client and verifier configurations need their required fields and return what was set; a TLS commitment configuration keeps the protocol it was made from.",
  ["inputs", "histories"], "all values, setter sequences, ranges and wire values",
  "no test covers the peer-supplied limits or the revealed positions; what is disclosed and what is preprocessed rest on them",
  [K + "config/tls_commit/mpc.rs", K + "config/prove.rs", K + "config/tls.rs", K + "config/verifier.rs", K + "config/tls_commit/proxy.rs", K + "config/tls_commit.rs"],
  [("MpcTlsConfigBuilder::build, validate, TryFrom<MpcTlsConfigUnchecked>", K + "config/tls_commit/mpc.rs"), ("ProveConfigBuilder::reveal_inner and reveal_*", K + "config/prove.rs"), ("ProveConfig::to_request", K + "config/prove.rs"), ("TlsConfigBuilder::build", K + "config/tls.rs")]),
P("C15", "Hash values, hash identifiers and the hash provider are faithful",
  "A hash value holds exactly the 0 to 64 bytes it was made from: longer input is refused (from a vector and from the wire), the bytes come back unchanged, two values are equal exactly when their bytes are, and a value serializes as its bytes and deserializes from them. Each built-in algorithm reports its own identifier (SHA-256 1, BLAKE3 2, Keccak-256 3) and hashes the data alone, or the prefix followed by the data. Custom identifiers are 128 or above. The provider returns the algorithm last set for an identifier, starting from the three built-in ones, and refuses an unknown identifier.",
  ["inputs", "histories"], "all byte strings, identifiers and sequences of provider updates",
  "no test covers lengths, prefix order or provider lookup; every commitment and Merkle leaf rests on them",
  [K + "hash.rs"], [("Hash::new/as_bytes/try_from/serialize/deserialize", K + "hash.rs"), ("HashAlgorithm for Sha256/Blake3/Keccak256", K + "hash.rs"), ("HashProvider, HashAlgId", K + "hash.rs")]),
P("A20", "A server identity is accepted only for its commitment, chain, name and key",
  "Verifying handshake data succeeds exactly when the ephemeral key equals the one in the binding, the certificate list is not empty, its first certificate chains through the others to a trusted root at the given time for server authentication and is valid for the server name, and its key signed client random, server random and the key exchange parameters of that ephemeral key under the stated algorithm. Verifying an identity proof succeeds exactly when, besides, the opening hashes, domain-separated, to the committed value under the committed, known algorithm; it returns the proven name. Versions, key types, signature algorithms and DNS names convert to and from TLS values without confusion.",
  ["inputs"], "all certificate lists, keys, randoms, signatures, names, times, commitments and openings",
  "tests use two recorded handshakes and change one thing at a time; the guarantee is over every combination of parts",
  [K + "connection.rs", K + "webpki.rs", A + "connection.rs", A + "hash.rs"],
  [("HandshakeData::verify, ServerEphemKey::kx_params", K + "connection.rs"), ("ServerCertVerifier::new/verify_server_cert", K + "webpki.rs"), ("ServerCertOpening::commit, ServerIdentityProof::verify_with_provider", A + "connection.rs"), ("hash_separated", A + "hash.rs")]),
P("A28", "Signatures verify only under the algorithm, key type and form they claim",
  "A verifier accepts exactly when the key is of its type (K-256, or P-256) and well formed, the signature has its form (64 bytes; Ethereum style 65 bytes with the last ignored, over the Keccak-256 hash of the message), and it is a valid signature of exactly that message under that key. Each built-in signer reports its algorithm and key type, and what it signs verifies under its own key; an Ethereum-style signature ends in 27 or 28. Custom identifiers are 128 or above and never equal a built-in one. A provider returns what was last set for an identifier and refuses unknown ones; setting a signer from bad key bytes changes nothing.",
  ["inputs", "histories"], "all keys, messages, signatures, algorithm identifiers and provider updates",
  "tests sign one message per algorithm; mixed key types, odd lengths and provider histories are not sampled",
  [A + "signing.rs"], [("Secp256k1Verifier, Secp256r1Verifier, Secp256k1EthVerifier", A + "signing.rs"), ("Secp256k1Signer, Secp256r1Signer, Secp256k1EthSigner", A + "signing.rs"), ("SignatureVerifierProvider, SignerProvider", A + "signing.rs")]),
P("A27", "Attestations state, bind and prove exactly what was requested and signed",
  "The notary accepts a request exactly when its signature and hash algorithms are supported and the extension validator admits its extensions (by default: none). What it builds states the accepted request and what was set, with fields numbered in order, carries the Merkle root over the domain-separated hash of every field, and is signed over the header by the signer whose key it states. The prover's check succeeds exactly when algorithms, certificate commitment and requested extensions match and the signature over the header is valid. A presentation is accepted exactly when every body field is the leaf at its id under the header's root, the header is signed by the body's key, and the optional identity and transcript proofs hold against the body; the output is what was proven. Honest parties accept each other.",
  ["inputs", "configurations", "histories"], "all requests, configurations, attestations, Merkle proofs and presentations, honest or forged",
  "tests run the honest flow and a handful of tamperings; a forgery may change any field, id, root, algorithm or proof",
  [A + "lib.rs", A + "proof.rs", A + "presentation.rs", A + "request.rs", A + "request/builder.rs", A + "builder.rs", A + "config.rs", A + "secrets.rs", K + "merkle.rs"],
  [("Body::hash_fields, Body::root", A + "lib.rs"), ("BodyProof, AttestationProof::verify", A + "proof.rs"), ("Presentation::verify, PresentationBuilder", A + "presentation.rs"), ("AttestationBuilder", A + "builder.rs"), ("Request::validate", A + "request.rs"), ("MerkleTree, MerkleProof::verify", K + "merkle.rs")]),
P("T11", "Cipher suites carry the right parameters and negotiation picks the right one",
  "Every suite's number, AEAD, key exchange, hash, digest length, nonce split (4 fixed + 8 explicit bytes for AES-GCM, 12 + 0 for ChaCha20) and signature schemes are those its name and standard assign; on offer are exactly ECDHE-ECDSA then ECDHE-RSA with AES-128-GCM-SHA256, and only TLS 1.2. Choosing by client preference gives the first client suite the server has, by server preference the first server suite the client has; reducing by signature algorithm or version keeps exactly the usable suites in order; offered signature schemes are intersected in the suite's order. Joined randoms are the two concatenated; ECDHE parameters decode only if they span the whole input.",
  ["inputs"], "all suites, offers, scheme lists and parameter bytes",
  "tests compare three fixed offers; tables and choices must be right for every suite and every offer",
  [C + "suites/mod.rs", C + "suites/tls12.rs", C + "suites/tls13.rs", C + "versions.rs", M + "handshake.rs"],
  [("suite tables and ALL_CIPHER_SUITES", C + "suites/mod.rs"), ("choose_ciphersuite_*, reduce_given_*, compatible_sigscheme_for_suites", C + "suites/mod.rs"), ("resolve_sig_schemes, join_randoms, decode_ecdh_params", C + "suites/tls12.rs"), ("EnabledVersions", C + "versions.rs")]),
P("T12", "Hello, certificate and ticket messages report exactly what they carry",
  "Looking up an extension in a hello, hello retry, encrypted-extensions, certificate entry, certificate request or ticket yields the first extension of that type in wire order, or none; each typed accessor yields its content (ALPN protocol only when exactly one is listed); duplicates (extensions, key shares, server-name types) are reported exactly when two entries share a code, and unknown extensions exactly when one is outside the allowed set. Constructors carry exactly their arguments: a server-name extension holds the given DNS name without a trailing dot, a certificate list the given chain in order. Bytes for binder signing are the encoding cut exactly before the binder list; replacing a binder changes only the first. Session ids are equal exactly when their bytes are; signature schemes map to and from their hash and signature codes.",
  ["inputs"], "all extension lists, names, key shares, certificate lists and tickets",
  "tests query a few canned hellos with one extension of each type; the answers must be right for every list, order and repetition",
  [M + "handshake.rs", M + "message.rs", C + "key.rs"],
  [("ClientHelloPayload/ServerHelloPayload/HelloRetryRequest accessors, HasServerExtensions", M + "handshake.rs"), ("CertificateEntry, CertificatePayloadTLS13, NewSessionTicketPayloadTLS13", M + "handshake.rs"), ("get_encoding_for_binder_signing, set_psk_binder, make_sni", M + "handshake.rs"), ("Message::build_alert, build_key_update_notify", M + "message.rs")]),
P("T13", "DER lengths and SEQUENCE wrapping are canonical for every length",
  "Prefixing a DER length writes the short form up to 127 bytes and otherwise the long form with the minimal number of big-endian digits and the right digit count; wrapping in a SEQUENCE adds tag 0x30 in front of that. The content itself is unchanged.",
  ["inputs"], "all contents of any length",
  "tests sample seven lengths; the digit loop must be right for all",
  [C + "x509.rs"], [("wrap_in_asn1_len, wrap_in_sequence", C + "x509.rs")]),
P("T14", "Server names and trust-anchor subjects keep their exact bytes",
  "A server name is made from a text exactly when the text is a valid DNS name, is offered for SNI as that text, and is encoded as type 1, one length byte and its bytes (so distinct names encode distinctly). A root store reports its size truthfully, and its subjects are, in order, each anchor's subject bytes wrapped in a DER SEQUENCE with the canonical length.",
  ["inputs"], "all texts and all lists of trust anchors",
  "no test encodes a name or asks a root store for its subjects",
  [C + "dns.rs", C + "anchors.rs", C + "x509.rs"], [("ServerName::for_sni, encode, try_from", C + "dns.rs"), ("RootCertStore::subjects", C + "anchors.rs")]),
P("M20", "The MPC record layer protects, meters and logs exactly the records it is given",
  "Records pushed for encryption get sequence numbers 0, 1, 2… as explicit nonce and additional data (sequence, type, version, length); a public record must come with its whole content, application data may hide it from the follower. Flushing returns, in order, each record's ciphertext (content XOR key stream of the client key) and tag, and decrypts received records under the server key: up to the first application data record unless online decryption is asked for. The leader learns every plaintext and takes nothing whose tag is wrong; the follower learns no application data, each private record being masked by its own part of a one-time pad. Bytes sent, received and decrypted online never exceed the configured limits, each buffer holds at most as many records as fit 16 MiB at full record size. Application data is not handed out before traffic starts. Committing fails with records left to encrypt, then returns exactly the records processed, in order, with their sequence numbers, types, nonces, ciphertexts, tags and what is known of the plaintext.",
  ["inputs", "histories", "schedules"], "all sequences of pushes, flushes, pulls and commits, all contents, lengths, types and limits, for either party",
  "no test runs the record layer; order, limits, nonces and one-time pads must be right over every history",
  [MP + "record_layer.rs", MP + "record_layer/encrypt.rs", MP + "record_layer/decrypt.rs"],
  [("RecordLayer::push_encrypt, push_decrypt, next_write, next_read", MP + "record_layer.rs"), ("RecordLayer::flush, commit, next_encrypted, next_decrypted", MP + "record_layer.rs"), ("encrypt: EncryptOp, compute_tags, private, public", MP + "record_layer/encrypt.rs"), ("decrypt: private_mpc, decrypt_mpc, decrypt_local, verify_tags", MP + "record_layer/decrypt.rs")]),
P("M21", "The MPC-TLS follower accepts only a session that happened as announced",
  "When the follower ends with a transcript, the leader announced the client random, the server hello and both Finished hashes exactly once each and then closed the connection; the client random came before the server hello; the PRF was seeded with exactly these values and the key exchange with exactly the announced server key, on curve P-256; the announced time was within 5 seconds of the follower's clock when the hello arrived. The transcript states that time, those randoms and that key, and its records are exactly those announced, in order, with sequence numbers 0, 1, 2…: what was sent in the clear under the client key, and what was received decrypted under the server key unless it is application data. Both Finished messages carry the verify data computed from the session's master secret, and both directions ended with application data or close_notify. Any other sequence of messages is refused with an error, without a panic.",
  ["inputs", "histories"], "all sequences of leader messages, honest or not",
  "no test runs the follower; a dishonest leader may send any messages in any order",
  [MP + "follower.rs", MP + "utils.rs", MP + "msg.rs"],
  [("MpcTlsFollower::alloc, preprocess, run", MP + "follower.rs"), ("alloc_session, flush_prf, verify_transcript", MP + "utils.rs"), ("Message", MP + "msg.rs")]),
P("M22", "MPC-TLS limits, record parts and the closing rule are exact",
  "A protected record splits into its 8-byte explicit nonce, ciphertext and 16-byte tag, whose concatenation is the record, and is refused exactly when shorter than 24 bytes. A configuration is made exactly when the three byte limits are set and the online limit does not exceed the total; each limit then has 32 bytes added for the protocol, unset record counts are 2 plus 8 plus one per started 4096 bytes beyond the first 4096, decryption is deferred and the network mode normal unless set otherwise. A transcript is accepted exactly when both Finished messages carry the expected verify data and each direction ends with application data or with a visible close_notify alert.",
  ["inputs", "configurations"], "all records, all settings, all transcripts",
  "tests use one record, one data volume and a few alerts; the rules must be exact at every boundary",
  [MP + "utils.rs", MP + "config.rs"],
  [("opaque_into_parts, verify_transcript, check_close_notify", MP + "utils.rs"), ("ConfigBuilder::build, default_record_count", MP + "config.rs")]),
P("M23", "The PRF computed in MPC is the TLS 1.2 PRF",
  "For every secret, randoms and hashes, in both network modes and all three master secret modes, and whatever the order in which seeds are set and the computation is flushed: the master secret is the first 48 bytes of P_SHA256(pre-master secret, \"master secret\" + client random + server random), or with \"extended master secret\" + session hash in the extended mode, or the given one in the direct mode; the client write key, server write key, client IV and server IV are bytes 0-15, 16-31, 32-35 and 36-39 of P_SHA256(master secret, \"key expansion\" + server random + client random); the verify data are the first 12 bytes of P_SHA256(master secret, \"client finished\" or \"server finished\" + handshake hash). P_SHA256 and HMAC-SHA256 are those of RFC 5246 and RFC 2104, also where hashes are computed outside the MPC. A flush is wanted exactly while a seeded part is not done, and a call in the wrong state or mode is refused. In the normal mode, and by any flush, nothing is opened to the parties.",
  ["inputs", "histories"], "all secrets, randoms, hashes and orders of calls",
  "tests take one random session per mode; the keys must be right for every one, and in whatever order the seeds arrive",
  [MH + "prf.rs", MH + "prf/function.rs", MH + "prf/function/normal.rs", MH + "prf/function/reduced.rs", MH + "hmac.rs", MH + "lib.rs"],
  [("Prf::alloc_pms, alloc_ms, set_server_random, set_session_hash, set_cf_hash, set_sf_hash, wants_flush, flush", MH + "prf.rs"), ("merge_outputs, compute_partial, get_session_keys", MH + "prf.rs"), ("normal::PrfFunction", MH + "prf/function/normal.rs"), ("reduced::PrfFunction, assign_inner_local", MH + "prf/function/reduced.rs"), ("hmac_sha256", MH + "hmac.rs"), ("sha256, state_to_bytes", MH + "lib.rs")]),
P("M24", "What a verifier accepts is what the recorded ciphertext decrypts to",
  "When the verifier accepts a proof: a server name is present exactly if a handshake was disclosed, and the handshake proves that name at the session's time; a transcript is present exactly if one was requested, covering exactly the requested ranges of each direction, with the lengths of the application data in the records, and every revealed byte is the byte the recorded ciphertexts decrypt to under the session keys (AES-128 in counter mode, counting from 2, under each record's own nonce). There is one commitment for each requested one, with its direction, ranges and algorithm, whose hash is that of the decrypted bytes at those ranges followed by a 16-byte blinder. Ranges beyond the transcript, another length, other ranges or a wrong byte are refused with an error. A tag proof is accepted only if every record has an 8-byte nonce and carries the AES-GCM tag of its sequence number, type, version, length and ciphertext.",
  ["inputs", "histories"], "all transcripts, records, keys, requests and claims of a dishonest prover",
  "no test runs a verifier against a lying prover; a byte may lie in any record, block or range",
  [TL + "verifier/verify.rs", TL + "transcript_internal/auth.rs", TL + "transcript_internal/commit/hash.rs", TL + "map.rs", TL + "tag.rs", TL + "ghash.rs", "crates/components/cipher/src/aes/mod.rs"],
  [("verify, collect_ciphertext", TL + "verifier/verify.rs"), ("verify_plaintext, PlaintextProof::verify, verify_plaintext_with_key, alloc_keystream, alloc_ciphertext, aes_ctr_apply_keystream", TL + "transcript_internal/auth.rs"), ("verify_hash, hash_commit_inner, HashCommitFuture::try_recv", TL + "transcript_internal/commit/hash.rs"), ("RangeMap", TL + "map.rs"), ("verify_tags, TagProof::verify", TL + "tag.rs"), ("ghash, build_ghash_data", TL + "ghash.rs"), ("Aes128::alloc_ctr_block, alloc_key_schedule", "crates/components/cipher/src/aes/mod.rs")]),
]

CLAIMED = {p["id"]: dict(level="proof", technique="contract-based deductive verification (Verus) of functions extracted from /repo on every run, with bounded replay on the compiled code for a concrete failing input",
                         note="every obligation of the named units is discharged by Verus/Z3 on each run; assumptions are listed in the evidence file") for p in PROPERTIES}

NOT_APPLICABLE = []
