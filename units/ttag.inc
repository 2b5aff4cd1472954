verus! {
pub use std::ops::Range;
// ---- types of other crates
pub type TlsContentType = ContentType;
//@derives crates/core/src/transcript/tls.rs ContentType PartialEq,Eq
//@sub tls_core\s*::\s*msgs\s*::\s*enums\s*::\s*ContentType => TlsContentType
//@sub \bContentType\b => RecType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/transcript/tls.rs enum ContentType
//@type crates/core/src/transcript/tls.rs struct Record
/// the record type on the wire
pub open spec fn wtype(t: RecType) -> ContentType {
    match t { RecType::ChangeCipherSpec => TlsContentType::ChangeCipherSpec, RecType::Alert => TlsContentType::Alert, RecType::Handshake => TlsContentType::Handshake, RecType::ApplicationData => TlsContentType::ApplicationData, RecType::Heartbeat => TlsContentType::Heartbeat, RecType::Unknown(u) => TlsContentType::Unknown(u) }
}
impl RecType {
//@fn crates/core/src/transcript/tls.rs "From<ContentType> for tls_core::msgs::enums::ContentType::from" rename=vx_into pubfn
    ensures r == wtype(content_type),
//@sub -> \(r: Self\) => -> (r: TlsContentType)
//@end
}
//@unsub \bContentType\b
pub open spec fn be8(x: u8) -> Seq<u8> { seq![x] }
pub open spec fn aad_of(seq: u64, typ: ContentType, vers: ProtocolVersion, len: int) -> Seq<u8> { be64(seq) + be8(typ.code()) + be16(vers.code()) + be16(len as u16) }
//@fn crates/tls-core/src/cipher.rs make_tls12_aad
    ensures r@ == aad_of(seq, typ, vers, len as int),
//@tail
    proof { assert(__r@ =~= aad_of(seq, typ, vers, len as int)); }
//@end

// ---- crates/tlsn/src/ghash.rs
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn up16(n: int) -> int { (n + 15) / 16 * 16 }
pub open spec fn padz(x: Seq<u8>) -> Seq<u8> { x + zeros(up16(x.len() as int) - x.len()) }
/// what GHASH is computed over (NIST SP 800-38D)
pub open spec fn gdata(aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8> { padz(aad) + padz(ct) + be64((8 * aad.len()) as u64) + be64((8 * ct.len()) as u64) }
/// GHASH of whole blocks (external crate)
pub uninterp spec fn gh(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub open spec fn gtag(key: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8> { gh(key, gdata(aad, ct)) }
pub trait VxMult: Sized { spec fn nat(&self) -> int; fn vx_mult(&self, n: usize) -> (r: bool) requires n > 0 ensures r == (self.nat() % (n as int) == 0); }
impl VxMult for usize {
    open spec fn nat(&self) -> int { *self as int }
    fn vx_mult(&self, n: usize) -> (r: bool) { *self % n == 0 }
}
pub fn vx_own(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { let r = s.to_vec(); assert(r@ =~= s@); r }
pub fn vx_put(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { let ghost v0 = v@; v.extend_from_slice(s); assert(v@ =~= v0 + s@); }
pub proof fn lemma_shl(a: u64) ensures ((a as u128) << 64) == (a as u128) * 0x1_0000_0000_0000_0000u128 { assert(((a as u128) << 64) == (a as u128) * 0x1_0000_0000_0000_0000u128) by (bit_vector); }
pub fn vx_bit(b: bool) -> (r: usize) ensures r == if b { 1int } else { 0int } { if b { 1 } else { 0 } }
#[verifier::external_body]
pub fn vx_be128(x: u128) -> (r: [u8; 16]) ensures forall|h: u64, l: u64| x == h * 0x1_0000_0000_0000_0000 + l ==> r@ == #[trigger] be64(h) + #[trigger] be64(l) { unimplemented!() }
#[verifier::external_body]
pub struct VxGHash { x: u8 }
impl VxGHash {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(key: &[u8; 16]) -> (r: VxGHash) ensures r.key() == key@, r.data() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update_padded(&mut self, d: &Vec<u8>) ensures final(self).key() == old(self).key(), d@.len() % 16 == 0 ==> final(self).data() == old(self).data() + d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: [u8; 16]) ensures r@ == gh(self.key(), self.data()) { unimplemented!() }
}
//@sub \bGHash\s*::\s*new => VxGHash::new
//@fn crates/tlsn/src/ghash.rs build_ghash_data
    requires aad@.len() <= 0xffff_ffe0, ciphertext@.len() <= 0xffff_ffe0, aad@.len() + ciphertext@.len() + 64 <= usize::MAX,
    ensures r@ == gdata(aad@, ciphertext@), r@.len() % 16 == 0,
//@sub \.is_multiple_of\( => .vx_mult(
//@sub (!\w+\.len\(\)\.vx_mult\(16\)) as usize => vx_bit($1)
//@sub \b(\w+)\.extend(?:_from_slice)?\(&?(\w+)\) => vx_put(&mut $1, &$2)
//@sub \b(\w+)\.extend(?:_from_slice)?\(&?(\w+)\.(?:vx_)?to_be_bytes\(\)\) => vx_put(&mut $1, &vx_be128($2))
//@begin
    hide(be64); hide(zeros);
    let ghost (vx_a, vx_c) = (aad@, ciphertext@);
    proof { lemma_shl((8 * vx_a.len()) as u64); }
//@after resize 0
    proof { reveal(zeros); assert(aad@ =~= padz(vx_a)); }
//@after resize 1
    proof { reveal(zeros); assert(ciphertext@ =~= padz(vx_c)); }
//@tail
    proof {
        let (x, y) = (be64((8 * vx_a.len()) as u64), be64((8 * vx_c.len()) as u64));
        assert(x.len() == 8 && y.len() == 8) by { reveal(be64); }
        assert(padz(vx_a) + padz(vx_c) + (x + y) =~= padz(vx_a) + padz(vx_c) + x + y);
    }
//@end
//@fn crates/tlsn/src/ghash.rs ghash
    requires aad@.len() <= 0xffff_ffe0, ciphertext@.len() <= 0xffff_ffe0, aad@.len() + ciphertext@.len() + 64 <= usize::MAX,
    ensures r@ == gtag(key@, aad@, ciphertext@),
//@sub \bkey\.into\(\) => key
//@sub \bout\.into\(\) => out
//@sub \b(\w+)\.to_(?:owned|vec)\(\) => vx_own($1)
//@begin
    hide(gdata); hide(zeros);
    let ghost vx_d = gdata(aad@, ciphertext@);
    proof { assert(Seq::<u8>::empty() + vx_d =~= vx_d); }
//@tail
    proof { assert(__r@ == gh(key@, vx_d)); }
//@end

// ---- crates/components/cipher/src/aes/mod.rs
#[verifier::external_body]
pub struct AesError { x: u8 }
pub enum ErrorKind { Vm, Key, Iv }
impl AesError { #[verifier::external_body] pub fn new<E>(k: ErrorKind, e: E) -> (r: AesError) { unimplemented!() } }
//@sub \bKeySchedule\b => Array<176>
//@sub \bAES128_KS\.clone\(\) => vx_ks()
//@sub \bAES128_POST_KS\.clone\(\) => vx_post()
//@type crates/components/cipher/src/lib.rs struct CtrBlock
//@type crates/components/cipher/src/aes/mod.rs struct Aes128
impl Aes128 {
    /// the round keys are those of the key
    pub open spec fn wf(&self) -> bool { self.key_schedule is Some ==> self.key is Some && aval(self.key_schedule->0) == sched(aval(self.key->0)) }
    pub open spec fn kept(&self, o: &Aes128) -> bool { self.key == o.key && self.iv == o.iv }
    pub fn default() -> (r: Aes128) ensures r.key is None, r.iv is None, r.key_schedule is None { Aes128 { key: None, key_schedule: None, iv: None } }
//@fn crates/components/cipher/src/aes/mod.rs Aes128::alloc_key_schedule closures=result
    requires self.key is Some,
    ensures r is Ok ==> aval(r->Ok_0) == sched(aval(self.key->0)),
//@end
//@fn crates/components/cipher/src/aes/mod.rs "Cipher for Aes128::set_key" pubfn
    requires old(self).key_schedule is None,
    ensures final(self).key == Some(key), final(self).iv == old(self).iv, final(self).key_schedule is None,
//@end
//@fn crates/components/cipher/src/aes/mod.rs "Cipher for Aes128::set_iv" pubfn
    ensures final(self).iv == Some(iv), final(self).key == old(self).key, final(self).key_schedule == old(self).key_schedule,
//@end
//@fn crates/components/cipher/src/aes/mod.rs "Cipher for Aes128::alloc_block" pubfn closures=result
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(old(self)), r is Ok ==> old(self).key is Some && aval(r->Ok_0) == aes(aval(old(self).key->0), aval(input)),
//@sub Self\s*::\s*Block => Array<16>
//@sub Self\s*::\s*Error => AesError
//@end
//@fn crates/components/cipher/src/aes/mod.rs "Cipher for Aes128::alloc_ctr_block" pubfn closures=result
    requires old(self).wf(),
    ensures final(self).wf(), final(self).kept(old(self)), r is Ok ==> old(self).key is Some && old(self).iv is Some && aval((r->Ok_0).output) == aes(aval(old(self).key->0), aval(old(self).iv->0) + aval((r->Ok_0).explicit_nonce) + aval((r->Ok_0).counter)),
//@sub Self\s*::\s*Block => Array<16>
//@sub Self\s*::\s*Nonce => Array<8>
//@sub Self\s*::\s*Counter => Array<4>
//@sub Self\s*::\s*Error => AesError
//@tail
    proof {
        let (k, i, e, c) = (sched(aval(self.key->0)), aval(iv), aval(explicit_nonce), aval(counter));
        let a = Seq::<u8>::empty() + k + i + e + c;
        assert(a.len() == 192 ==> a.take(176) =~= k && a.skip(176) =~= i + e + c);
        assert(k.len() == 176) by { assert(k == aval(ks)); }
    }
//@end
}

// ---- crates/tlsn/src/tag.rs
#[verifier::external_body]
pub struct TagProofError { x: u8 }
pub enum ErrorRepr { NotDecoded, InvalidTag, UnknownTag, ExplicitNonceLength { expected: usize, actual: usize } }
impl TagProofError {
    #[verifier::external_body]
    pub fn vm<E>(e: E) -> (r: TagProofError) { unimplemented!() }
}
impl From<ErrorRepr> for TagProofError { #[verifier::external_body] fn from(e: ErrorRepr) -> (r: TagProofError) { unimplemented!() } }
pub trait VxArr8: Sized { spec fn sv(&self) -> Seq<u8>; fn vx_arr8(self) -> (r: Result<[u8; 8], Vec<u8>>) ensures (r is Ok) == (self.sv().len() == 8), r is Ok ==> r->Ok_0@ == self.sv(), r is Err ==> r->Err_0@ == self.sv(); }
impl VxArr8 for Vec<u8> { open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_arr8(self) -> (r: Result<[u8; 8], Vec<u8>>) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_zip(a: Vec<FutA<16>>, b: Vec<Record>) -> (r: Vec<(FutA<16>, Record)>) ensures r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i] { unimplemented!() }
/// the cipher keeps the keys it was given
pub open spec fn vx_ok(a: &Aes128, key: Seq<u8>, iv: Seq<u8>) -> bool { a.wf() && a.key is Some && a.iv is Some && aval(a.key->0) == key && aval(a.iv->0) == iv }
pub open spec fn xorb(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| a[i] ^ b[i]) }
pub fn vx_same(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() invariant i <= a.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] decreases a.len() - i { if a[i] != b[i] { return false; } i += 1; }
    assert(a@ =~= b@);
    true
}
//@derives crates/core/src/connection.rs TlsVersion PartialEq,Eq
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/connection.rs enum TlsVersion
pub open spec fn wvers(v: TlsVersion) -> ProtocolVersion { match v { TlsVersion::V1_2 => ProtocolVersion::TLSv1_2, TlsVersion::V1_3 => ProtocolVersion::TLSv1_3 } }
/// the pad of a record's tag
pub open spec fn j0_of(key: Seq<u8>, iv: Seq<u8>, rec: Record) -> Seq<u8> { blk(key, iv, rec.explicit_nonce@, 1) }
pub open spec fn tagd(j0: Seq<u8>, mac: Seq<u8>, vers: TlsVersion, rec: Record) -> bool {
    &&& rec.tag is Some
    &&& (rec.tag->0)@ == xorb(gtag(mac, aad_of(rec.seq, wtype(rec.typ), wvers(vers), rec.ciphertext@.len() as int), rec.ciphertext@), j0)
}
/// the record carries the tag AES-GCM gives its ciphertext under the session's keys
pub open spec fn tagged(key: Seq<u8>, iv: Seq<u8>, mac: Seq<u8>, vers: TlsVersion, rec: Record) -> bool {
    tagd(j0_of(key, iv, rec), mac, vers, rec)
}
//@sub Vec\s*<\s*DecodeFutureTyped => Vec<DecodeFutureTyped
//@type crates/tlsn/src/tag.rs struct TagProof
impl TagProof {
    pub closed spec fn wf(&self) -> bool { self.j0s@.len() == self.records@.len() }
    pub closed spec fn recs(&self) -> Seq<Record> { self.records@ }
    /// what was opened: the keys' own values
    pub closed spec fn bound(&self, key: Seq<u8>, iv: Seq<u8>, mac: Seq<u8>, vers: TlsVersion, recs: Seq<Record>) -> bool {
        &&& self.wf() && self.records@ == recs && self.tls_version == vers && self.mac_key.v() == mac
        &&& forall|i: int| 0 <= i < recs.len() ==> #[trigger] recs[i].explicit_nonce@.len() == 8 && self.j0s@[i].v() == j0_of(key, iv, recs[i])
    }
}
//@fn crates/tlsn/src/tag.rs verify_tags closures=result
    ensures r is Ok ==> r->Ok_0.bound(aval(key_iv.0), aval(key_iv.1), aval(mac_key), tls_version, records@),
//@subreq (?s)\b(\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\|\s*\{(.*)Ok\((\w+)\)\s*\}\)\s*\.collect::<\s*Result<Vec<_>,\s*TagProofError>\s*>\(\)\?; =>> { let mut __c: Vec<FutA<16>> = Vec::new(); for $2 in __it: $1.iter() invariant __it.seq() == $1@.map_values(|x: Record| &x), vx_ok(&aes, vx_key, vx_iv), __c@.len() == __it.index@, forall|k: int| 0 <= k < __it.index@ ==> #[trigger] $1@[k].explicit_nonce@.len() == 8 && __c@[k].v() == j0_of(vx_key, vx_iv, $1@[k]) { $3 proof { assert(vx_iv + $2.explicit_nonce@ + be32(1u32) =~= vx_iv + aval(block.explicit_nonce) + aval(block.counter)); } __c.push($4); } __c };
//@sub \.vx_try_into\(\) => .vx_arr8()
//@begin
    let ghost (vx_key, vx_iv) = (aval(key_iv.0), aval(key_iv.1));
//@end
impl TagProof {
//@fn crates/tlsn/src/tag.rs TagProof::verify closures=result
    requires self.wf(), forall|i: int| 0 <= i < self.recs().len() ==> #[trigger] self.recs()[i].ciphertext@.len() <= 0xffff,
    ensures forall|key: Seq<u8>, iv: Seq<u8>, mac: Seq<u8>, vers: TlsVersion, recs: Seq<Record>| r is Ok && #[trigger] self.bound(key, iv, mac, vers, recs) ==> forall|i: int| 0 <= i < recs.len() ==> tagged(key, iv, mac, vers, #[trigger] recs[i]),
//@subreq (?s)(\w+)\s*\.into_iter\(\)\s*\.zip\((\w+)\)\s*\.map\(\|\((\w+),\s*(\w+)\)\|\s*(.*?)\)\s*\.collect::<\s*Vec<_>\s*>\(\) =>> ({ let (__x, __y) = ($1, $2); let mut __o: Vec<u8> = Vec::new(); for __i in 0..16usize invariant __o@.len() == __i, forall|k: int| 0 <= k < __i ==> __o@[k] == __x@[k] ^ __y@[k] { let ($3, $4) = (__x[__i], __y[__i]); __o.push($5); } proof { assert(__o@ =~= xorb(__x@, __y@)); } __o })
//@loop 0 for iter=it0
    invariant it0.seq().len() == n, self.wf(), self.recs().len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] it0.seq()[i]).0 == self.j0s@[i] && it0.seq()[i].1 == self.recs()[i],
        mac_key@ == self.mac_key.v(), vers == wvers(self.tls_version),
        forall|i: int| 0 <= i < n ==> #[trigger] self.recs()[i].ciphertext@.len() <= 0xffff,
        forall|i: int| 0 <= i < it0.index@ ==> tagd(self.j0s@[i].v(), self.mac_key.v(), self.tls_version, #[trigger] self.recs()[i]),
//@begin
    let ghost n = self.recs().len();
//@sub in it0: (\w+)\.into_iter\(\)\.zip\((\w+)\) => in it0: vx_zip($1, $2)
//@sub \b(\w+\.typ)\.into\(\) => RecType::vx_into($1)
//@sub (?s)if \*record_tag\s*!=\s*(.*?)\s*\{\s*return Err\(ErrorRepr::InvalidTag => if !vx_same(record_tag, &$1) { return Err(ErrorRepr::InvalidTag
//@sub \baad\.as_ref\(\) => aad.as_slice()
//@end
}
} // verus!
