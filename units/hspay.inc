verus! {
//@modules codec
//@ghostvec CipherSuite 16
//@ghostvec Compression 8
//@ghostvec ClientExtension 16
//@ghostvec HelloRetryExtension 16
//@ghostvec CertificateEntry 24
//@type crates/tls-core/src/msgs/handshake.rs struct CertificatePayloadTLS13
//@codecstruct crates/tls-core/src/msgs/handshake.rs CertificatePayloadTLS13 context:PayloadU8 entries:Vec<CertificateEntry>

// ---- ClientHello: fixed head, then an optional extension block
//@codecpart ChHead v:ProtocolVersion random:Random sid:SessionID suites:Vec<CipherSuite> comps:Vec<Compression>
pub proof fn lemma_ce()
    ensures forall|v: Seq<ClientExtension>| (#[trigger] enc_all(v)).len() > 0 <==> v.len() > 0,
{ assert forall|v: Seq<ClientExtension>| (#[trigger] enc_all(v)).len() > 0 <==> v.len() > 0 by { if v.len() > 0 { assert(v.last().enc().len() >= 4); } } }
//@type crates/tls-core/src/msgs/handshake.rs struct ClientHelloPayload
impl ClientHelloPayload {
    pub open spec fn head(&self) -> ChHead { ChHead { v: self.client_version, random: self.random, sid: self.session_id, suites: self.cipher_suites, comps: self.compression_methods } }
    pub open spec fn enc(&self) -> Seq<u8> { self.head().enc() + if self.extensions@.len() == 0 { Seq::empty() } else { self.extensions.enc() } }
    pub open spec fn wfv(&self) -> bool { self.head().wfv() && self.extensions.wfv() }
    pub open spec fn rtv(&self) -> bool { self.head().rtv(false) && self.extensions.rtv(true) && enc_all(self.extensions@).len() > 0 }
    /// decodable: a head, then a non-empty extension block that takes all the rest
    pub open spec fn ok(s: Seq<u8>) -> bool {
        match ChHead::plen(s) { None => false, Some(n) => n < s.len() && <Vec<ClientExtension> as Codec>::plen(s.skip(n as int)) == Some((s.len() - n) as nat) && nat16(s.skip(n as int)) > 0 }
    }
    pub proof fn lemma_rt(v: Self)
        requires v.wfv(), v.rtv(),
        ensures Self::ok(v.enc()),
    {
        let e = v.extensions.enc(); let h = v.head().enc(); let s = h + e;
        ChHead::lemma_rt(&v.head(), e); assert(s.skip(h.len() as int) =~= e);
        <Vec<ClientExtension> as Codec>::lemma_rt(&v.extensions, Seq::empty()); assert(e + Seq::<u8>::empty() =~= e);
        lemma_be16(enc_all(v.extensions@).len() as u16);
    }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ClientHelloPayload::encode" pubfn
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ClientHelloPayload::read" ret=res pubfn
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> Self::ok(old(r).tailv()),
        res is Some ==> res->0.wfv() && res->0.enc() == old(r).tailv() && final(r).tailv().len() == 0 && res->0.extensions@.len() > 0,
//@begin
    hide(<ClientExtension as Codec>::plen); hide(<ClientExtension as Codec>::enc); hide(<ClientExtension as Codec>::wfv); hide(<ClientExtension as Codec>::rtv);
    hide(<SessionID as Codec>::plen); hide(<SessionID as Codec>::enc); hide(vec_ok);
    let ghost s = r.tailv();
    proof {
        ChHead::walk(s); lemma_ce();
        if s.len() >= 34 { if let Some(n2) = SessionID::plen(s.skip(34)) { SessionID::lemma_plen(s.skip(34)); let t = s.skip(34 + n2 as int); lemma_vh(t); if let Some(n3) = <Vec<CipherSuite> as Codec>::plen(t) { <Vec<CipherSuite> as Codec>::lemma_plen(t); lemma_vh(t.skip(n3 as int)); } } }
        if let Some(n) = ChHead::plen(s) { ChHead::lemma_plen(s); assert(s.take(n as int) + s.skip(n as int) =~= s); assert(s.take(s.len() as int) =~= s); <Vec<ClientExtension> as Codec>::lemma_plen(s.skip(n as int)); let t = s.skip(n as int); assert(t.take(t.len() as int) =~= t); lemma_nats(t); } }
//@end
}

// ---- ServerHello / HelloRetryRequest: the version and random are read by the caller
//@codecpart ShRest sid:SessionID suite:CipherSuite comp:Compression exts:Vec<ServerExtension>
//@type crates/tls-core/src/msgs/handshake.rs struct ServerHelloPayload
impl ServerHelloPayload {
    pub open spec fn rest(&self) -> ShRest { ShRest { sid: self.session_id, suite: self.cipher_suite, comp: self.compression_method, exts: self.extensions } }
    pub open spec fn enc(&self) -> Seq<u8> { be16(self.legacy_version.code()) + self.random.0@ + self.rest().enc() }
    pub open spec fn wfv(&self) -> bool { self.rest().wfv() }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ServerHelloPayload::encode" pubfn
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ServerHelloPayload::read" ret=res pubfn
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> ShRest::plen(old(r).tailv()) == Some(old(r).tailv().len()),
        res is Some ==> res->0.wfv() && res->0.rest().enc() == old(r).tailv() && final(r).tailv().len() == 0,
//@begin
    let ghost s = r.tailv();
    proof { ShRest::walk(s); assert(s.take(s.len() as int) =~= s); }
//@end
}
//@codecpart HrrRest sid:SessionID suite:CipherSuite comp:Compression exts:Vec<HelloRetryExtension> "ok=s[(n0 + n1) as int] == 0" "wf=self.comp.code() == 0"
//@type crates/tls-core/src/msgs/handshake.rs struct HelloRetryRequest
impl HelloRetryRequest {
    pub open spec fn rest(&self) -> HrrRest { HrrRest { sid: self.session_id, suite: self.cipher_suite, comp: Compression::Null, exts: self.extensions } }
    pub open spec fn enc(&self) -> Seq<u8> { be16(self.legacy_version.code()) + hrr_random() + self.rest().enc() }
    pub open spec fn wfv(&self) -> bool { self.rest().wfv() }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for HelloRetryRequest::encode" pubfn
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@tail
    proof { assert(bytes@ =~= old(bytes)@ + self.enc()); }
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for HelloRetryRequest::read" ret=res pubfn
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).pos() >= old(r).pos(),
        res is Some <==> HrrRest::plen(old(r).tailv()) is Some,
        res is Some ==> res->0.wfv() && res->0.rest().enc() == old(r).tailv().take(HrrRest::plen(old(r).tailv())->0 as int)
            && final(r).tailv() == old(r).tailv().skip(HrrRest::plen(old(r).tailv())->0 as int) && final(r).pos() == old(r).pos() + HrrRest::plen(old(r).tailv())->0,
//@begin
    let ghost s = r.tailv();
    proof { HrrRest::walk(s); lemma_one(s); if let Some(n0) = SessionID::plen(s) { if s.len() > n0 + 2 { assert(seq![s[n0 as int + 2]][0] == s[n0 as int + 2]); let t = s.skip(n0 as int + 3); lemma_vh(t); assert(s.skip(n0 as int + 2).skip(1) =~= t); assert(s.skip(n0 as int).skip(2) =~= s.skip(n0 as int + 2)); } } }
//@after read 2
    proof { assert(seq![compression.code()][0] == compression.code()); }
//@end
}
pub proof fn lemma_vh(t: Seq<u8>)
    ensures t.len() >= 2 && t.len() >= 2 + nat16(t) ==> be16(t.subrange(2, 2 + nat16(t) as int).len() as u16) + t.subrange(2, 2 + nat16(t) as int) == t.take(2 + nat16(t) as int),
        t.len() >= 1 && t.len() >= 1 + t[0] as nat ==> seq![t.subrange(1, 1 + t[0] as int).len() as u8] + t.subrange(1, 1 + t[0] as int) == t.take(1 + t[0] as int),
{ if t.len() >= 2 { lemma_vec_hdr16(t, t.subrange(2, 2 + nat16(t) as int)); } if t.len() >= 1 { lemma_vec_hdr8(t, t.subrange(1, 1 + t[0] as int)); } }
pub proof fn lemma_one(s: Seq<u8>)
    ensures forall|k: int| 0 <= k < s.len() ==> #[trigger] s.skip(k).take(1) == seq![s[k]],
{ assert forall|k: int| 0 <= k < s.len() implies #[trigger] s.skip(k).take(1) == seq![s[k]] by { assert(s.skip(k).take(1) =~= seq![s[k]]); } }

//@type crates/tls-core/src/msgs/handshake.rs enum ServerKeyExchangePayload
//@type crates/tls-core/src/msgs/handshake.rs enum KeyExchangeAlgorithm
impl ServerKeyExchangePayload {
    pub open spec fn enc(&self) -> Seq<u8> { match *self { ServerKeyExchangePayload::ECDHE(x) => x.enc(), ServerKeyExchangePayload::Unknown(x) => x.0@ } }
    pub open spec fn wfv(&self) -> bool { match *self { ServerKeyExchangePayload::ECDHE(x) => x.wfv(), ServerKeyExchangePayload::Unknown(x) => true } }
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ServerKeyExchangePayload::encode" pubfn
    requires self.wfv(),
    ensures final(bytes)@ == old(bytes)@ + self.enc(),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs "Codec for ServerKeyExchangePayload::read" ret=res pubfn
    requires old(r).wf(),
    ensures final(r).wf(), final(r).data() == old(r).data(), final(r).tailv().len() == 0, final(r).pos() == old(r).data().len(),
        res is Some, res->0 is Unknown, res->0.enc() == old(r).tailv(),
//@end
//@fn crates/tls-core/src/msgs/handshake.rs ServerKeyExchangePayload::unwrap_given_kxa ret=res
    ensures res is Some <==> self is Unknown && *kxa == KeyExchangeAlgorithm::ECDHE && ECDHEServerKeyExchange::plen(self.enc()) == Some(self.enc().len()),
        res is Some ==> res->0.enc() == self.enc() && res->0.wfv() && res->0.decoded(),
//@begin
    proof { let e = self.enc(); assert(e.skip(0) =~= e); ECDHEServerKeyExchange::lemma_plen(e); assert(e.take(e.len() as int) =~= e); }
//@end
}
}
