verus! {
//@modules mpc-tls
// ---- types of other crates
pub type TlsContentType = ContentType;
//@derives crates/core/src/transcript/tls.rs ContentType PartialEq,Eq
//@sub tls_core\s*::\s*msgs\s*::\s*enums\s*::\s*ContentType => TlsContentType
//@sub tls_core\s*::\s*msgs\s*::\s*enums\s*::\s*ProtocolVersion => ProtocolVersion
//@sub \bContentType\b => RecType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/transcript/tls.rs enum ContentType
//@type crates/core/src/transcript/tls.rs struct Record
pub open spec fn rtype(t: ContentType) -> RecType {
    match t { TlsContentType::ChangeCipherSpec => RecType::ChangeCipherSpec, TlsContentType::Alert => RecType::Alert, TlsContentType::Handshake => RecType::Handshake, TlsContentType::ApplicationData => RecType::ApplicationData, TlsContentType::Heartbeat => RecType::Heartbeat, TlsContentType::Unknown(u) => RecType::Unknown(u) }
}
impl RecType {
//@fn crates/core/src/transcript/tls.rs "From<tls_core::msgs::enums::ContentType> for ContentType::from" rename=vx_from pubfn
    ensures r == rtype(content_type),
//@end
}
//@unsub \bContentType\b
pub open spec fn be8(x: u8) -> Seq<u8> { seq![x] }
pub open spec fn aad_of(seq: u64, typ: ContentType, vers: ProtocolVersion, len: int) -> Seq<u8> { be64(seq) + be8(typ.code()) + be16(vers.code()) + be16(len as u16) }
//@fn crates/tls-core/src/cipher.rs make_tls12_aad
    ensures r@ == aad_of(seq, typ, vers, len as int),
//@tail
    proof { assert(__r@ =~= aad_of(seq, typ, vers, len as int)); }
//@end
// ---- errors: only that there is one
#[verifier::external_body]
pub struct MpcTlsError { x: u8 }
impl From<VxErr> for MpcTlsError { #[verifier::external_body] fn from(e: VxErr) -> (r: MpcTlsError) { unimplemented!() } }
impl MpcTlsError {
    #[verifier::external_body] pub fn peer<T>(m: T) -> MpcTlsError { unimplemented!() }
    #[verifier::external_body] pub fn state<T>(m: T) -> MpcTlsError { unimplemented!() }
    #[verifier::external_body] pub fn record_layer<T>(m: T) -> MpcTlsError { unimplemented!() }
    #[verifier::external_body] pub fn other<T>(m: T) -> MpcTlsError { unimplemented!() }
    #[verifier::external_body] pub fn hs<T>(m: T) -> MpcTlsError { unimplemented!() }
    #[verifier::external_body] pub fn alloc<T>(m: T) -> MpcTlsError { unimplemented!() }
    #[verifier::external_body] pub fn preprocess<T>(m: T) -> MpcTlsError { unimplemented!() }
}
// ---- the VM and the cipher (external). A handle stands for the bytes the parties agree on for it.
#[verifier::external_body]
pub struct VxErr { x: u8 }
#[derive(Clone, Copy)]
pub struct Vector { pub id: u64 }
pub uninterp spec fn val(v: Vector) -> Seq<u8>;
#[derive(Clone, Copy)]
pub struct Array<const N: usize> { pub id: u64 }
#[verifier::external_body]
pub struct Fut { x: u8 }
impl Fut {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Option<Vec<u8>>, VxErr>) ensures r is Ok && r->Ok_0 is Some ==> ((r->Ok_0)->0)@ == old(self).v() { unimplemented!() }
    /// the value of a future that resolves (one that fails makes the tag computation fail)
    #[verifier::external_body]
    pub fn vx_value(self) -> (r: Vec<u8>) ensures r@ == self.v() { unimplemented!() }
}
/// the future of a ciphertext, as handed to the tag computation
#[verifier::external_body]
pub struct CtFut { x: u8 }
impl CtFut {
    pub uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn of(f: Fut) -> (r: CtFut) ensures r.v() == f.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn ready(f: Vec<u8>) -> (r: CtFut) ensures r.v() == f@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Ctx { x: u8 }
#[verifier::external_body]
pub struct VxVm { x: u8 }
impl VxVm {
    #[verifier::external_body]
    pub fn try_lock_owned(self) -> (r: Result<VxVm, VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn assign(&mut self, v: Vector, d: Vec<u8>) -> (r: Result<(), VxErr>) ensures r is Ok ==> val(v) == d@ { unimplemented!() }
    #[verifier::external_body]
    pub fn commit(&mut self, v: Vector) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(&mut self, v: Vector) -> (r: Result<Fut, VxErr>) ensures r is Ok ==> r->Ok_0.v() == val(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn execute_all(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) { unimplemented!() }
}
pub open spec fn xor(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| if i < b.len() { a[i] ^ b[i] } else { a[i] }) }
pub proof fn lemma_xor_comm(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len() ensures xor(a, b) == xor(b, a)
{ assert forall|i: int| 0 <= i < a.len() implies a[i] ^ b[i] == b[i] ^ a[i] by { let x = a[i]; let y = b[i]; assert(x ^ y == y ^ x) by (bit_vector); } assert(xor(a, b) =~= xor(b, a)); }
/// AES-CTR keystream from counter 2 and the GCM tag
pub ghost struct Keys { pub key: Array<16>, pub iv: Array<4>, pub leader: bool }
pub uninterp spec fn f_ks(key: Array<16>, iv: Array<4>, nonce: Seq<u8>, len: int) -> Seq<u8>;
pub uninterp spec fn f_gtag(key: Array<16>, iv: Array<4>, nonce: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8>;
/// of the key and IV (not of which party computes)
pub open spec fn ks(k: Keys, nonce: Seq<u8>, len: int) -> Seq<u8> { f_ks(k.key, k.iv, nonce, len) }
pub open spec fn gtag(k: Keys, nonce: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8> { f_gtag(k.key, k.iv, nonce, aad, ct) }
//@type crates/mpc-tls/src/record_layer.rs struct TagData
impl Clone for TagData { #[verifier::external_body] fn clone(&self) -> (r: TagData) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct ComputeTags { x: u8 }
impl ComputeTags {
    pub uninterp spec fn k(&self) -> Keys;
    pub uninterp spec fn cts(&self) -> Seq<CtFut>;
    pub uninterp spec fn data(&self) -> Seq<TagData>;
    #[verifier::external_body]
    pub fn run(self, ctx: &mut Ctx) -> (r: Result<Option<Vec<Vec<u8>>>, VxErr>)
        ensures r is Ok && r->Ok_0 is Some ==> { let t = ((r->Ok_0)->0)@; t.len() == self.data().len() && (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i])@ == gtag(self.k(), self.data()[i].explicit_nonce@, self.data()[i].aad@, self.cts()[i].v())) }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VerifyTags { x: u8 }
impl VerifyTags {
    pub uninterp spec fn k(&self) -> Keys;
    pub uninterp spec fn cts(&self) -> Seq<Vec<u8>>;
    pub uninterp spec fn tags(&self) -> Seq<Vec<u8>>;
    pub uninterp spec fn data(&self) -> Seq<TagData>;
    #[verifier::external_body]
    pub fn run(self, ctx: &mut Ctx) -> (r: Result<(), VxErr>)
        // only the leader learns the tags and compares them
        ensures r is Ok && self.k().leader ==> forall|i: int| 0 <= i < self.tags().len() ==> (#[trigger] self.tags()[i])@ == gtag(self.k(), self.data()[i].explicit_nonce@, self.data()[i].aad@, self.cts()[i]@)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct MpcAesGcm { x: u8 }
impl MpcAesGcm {
    pub uninterp spec fn k(&self) -> Keys;
    #[verifier::external_body]
    pub fn try_lock(&mut self) -> (r: Result<&mut MpcAesGcm, VxErr>) ensures r is Ok ==> *(r->Ok_0) == *old(self) && *final(self) == *final(r->Ok_0), r is Err ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_key(&mut self, key: Array<16>) ensures final(self).k() == (Keys { key, ..old(self).k() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_iv(&mut self, iv: Array<4>) ensures final(self).k() == (Keys { iv, ..old(self).k() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_keystream(&mut self, vm: &mut VxVm, explicit_nonce: Vec<u8>, len: usize) -> (r: Result<(Vector, Vector), VxErr>)
        ensures final(self).k() == old(self).k(),
            r is Ok ==> val((r->Ok_0).0).len() == len && val((r->Ok_0).1) == xor(val((r->Ok_0).0), ks(old(self).k(), explicit_nonce@, len as int)) && ks(old(self).k(), explicit_nonce@, len as int).len() == len
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_keystream(&mut self, vm: &mut VxVm, explicit_nonce: Vec<u8>, len: usize) -> (r: Result<Vector, VxErr>)
        ensures final(self).k() == old(self).k(), r is Ok ==> val(r->Ok_0) == ks(old(self).k(), explicit_nonce@, len as int) && ks(old(self).k(), explicit_nonce@, len as int).len() == len
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_tags(&mut self, vm: &mut VxVm, cts: Vec<CtFut>, data: Vec<TagData>) -> (r: Result<ComputeTags, VxErr>)
        ensures final(self).k() == old(self).k(), r is Ok ==> r->Ok_0.k() == old(self).k() && r->Ok_0.cts() == cts@ && r->Ok_0.data() == data@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn verify_tags(&mut self, vm: &mut VxVm, data: Vec<TagData>, cts: Vec<Vec<u8>>, tags: Vec<Vec<u8>>) -> (r: Result<VerifyTags, VxErr>)
        ensures final(self).k() == old(self).k(), r is Ok ==> r->Ok_0.k() == old(self).k() && r->Ok_0.cts() == cts@ && r->Ok_0.data() == data@ && r->Ok_0.tags() == tags@
    { unimplemented!() }
}
/// the leader's local AES-GCM over the decoded key
#[verifier::external_body]
pub struct AesGcm { x: u8 }
impl AesGcm {
    pub uninterp spec fn k(&self) -> Keys;
    #[verifier::external_body]
    pub fn set_key(&mut self, key: Array<16>, iv: Array<4>) ensures final(self).k() == (Keys { key, iv, ..old(self).k() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_key(&mut self, vm: &mut VxVm) -> (r: Result<(), MpcTlsError>) ensures final(self).k() == old(self).k() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_decode(&mut self) -> (r: Result<(), MpcTlsError>) ensures final(self).k() == old(self).k() { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt(&mut self, explicit_nonce: Vec<u8>, aad: Vec<u8>, ciphertext: Vec<u8>, tag: Vec<u8>) -> (r: Result<Vec<u8>, MpcTlsError>)
        ensures final(self).k() == old(self).k(), r is Ok ==> (r->Ok_0)@ == xor(ciphertext@, ks(old(self).k(), explicit_nonce@, ciphertext@.len() as int)) && tag@ == gtag(old(self).k(), explicit_nonce@, aad@, ciphertext@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_joined<T>(t: T) -> (r: Result<Result<T, MpcTlsError>, VxErr>) ensures r is Ok && r->Ok_0 is Ok ==> (r->Ok_0)->Ok_0 == t { unimplemented!() }
// ---- collections
#[verifier::external_body]
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_drain<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>) requires n <= old(v)@.len() ensures r@ == old(v)@.take(n as int), final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i]
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }

// ---- operations
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/mpc-tls/src/lib.rs enum Role
//@derives crates/mpc-tls/src/record_layer/encrypt.rs EncryptMode PartialEq,Eq
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/mpc-tls/src/record_layer/encrypt.rs enum EncryptMode
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/mpc-tls/src/record_layer/decrypt.rs enum DecryptMode
//@sub DecodeFutureTyped\s*<\s*BitVec\s*,\s*Vec\s*<\s*u8\s*>\s*> => Fut
//@sub BoxFut\s*<\s*Result\s*<\s*Vec\s*<\s*u8\s*>\s*,\s*AeadError\s*>\s*> => CtFut
//@sub &\s*mut\s+dyn\s+(Vm|VmTrait)\s*<\s*Binary\s*> => &mut VxVm
//@sub Vector\s*<\s*U8\s*> => Vector
//@sub Array\s*<\s*U8\s*,\s*(\d+)\s*> => Array<$1>
//@sub &\s*mut\s+Context => &mut Ctx
//@sub :\s*Vm\b => : VxVm
//@type crates/mpc-tls/src/record_layer/encrypt.rs struct EncryptOp
//@type crates/mpc-tls/src/record_layer/encrypt.rs enum EncryptOutput
//@type crates/mpc-tls/src/record_layer/encrypt.rs struct PendingEncrypt
//@type crates/mpc-tls/src/record_layer/encrypt.rs struct EncryptPrivate
//@type crates/mpc-tls/src/record_layer/encrypt.rs struct EncryptPublic
//@type crates/mpc-tls/src/record_layer/decrypt.rs struct DecryptOp
//@type crates/mpc-tls/src/record_layer/decrypt.rs enum DecryptOutput
//@type crates/mpc-tls/src/record_layer/decrypt.rs struct PendingDecrypt
//@type crates/mpc-tls/src/record_layer/decrypt.rs struct DecryptPrivate
//@type crates/mpc-tls/src/record_layer/decrypt.rs struct DecryptPublic
//@type crates/mpc-tls/src/record_layer/decrypt.rs struct DecryptLocal
/// what an outgoing record must satisfy to be taken
pub open spec fn enc_ok(typ: ContentType, len: int, plaintext: Option<Vec<u8>>) -> bool { (plaintext is Some ==> plaintext->0@.len() == len) && (plaintext is None ==> typ is ApplicationData) }
pub open spec fn emode(typ: ContentType) -> EncryptMode { if typ is ApplicationData { EncryptMode::Private } else { EncryptMode::Public } }
pub open spec fn dmode(typ: ContentType) -> DecryptMode { if typ is ApplicationData { DecryptMode::Private } else { DecryptMode::Public } }
impl EncryptOp {
//@fn crates/mpc-tls/src/record_layer/encrypt.rs EncryptOp::new
    ensures r is Ok <==> (plaintext is Some ==> plaintext->0@.len() == len) && (mode is Public ==> plaintext is Some),
        r is Ok ==> r->Ok_0 == (EncryptOp { seq, typ, version, len, plaintext, explicit_nonce, aad, mode }),
//@end
    /// the ciphertext of this record under the keys
    pub open spec fn ct(&self, k: Keys, c: Seq<u8>) -> bool {
        c.len() == self.len && match self.plaintext { Some(p) => c == xor(p@, ks(k, self.explicit_nonce@, self.len as int)), None => self.mode is Private && (exists|p: Seq<u8>| p.len() == self.len && c == #[trigger] xor(p, ks(k, self.explicit_nonce@, self.len as int))) }
    }
    pub open spec fn wf(&self) -> bool { (self.plaintext is Some ==> self.plaintext->0@.len() == self.len) && (self.mode is Public ==> self.plaintext is Some) && self.mode == emode(self.typ) }
}
impl DecryptOp {
//@fn crates/mpc-tls/src/record_layer/decrypt.rs DecryptOp::new
    ensures r == (DecryptOp { seq, typ, version, explicit_nonce, ciphertext, aad, tag, mode }),
//@end
    pub open spec fn pt(&self, k: Keys) -> Seq<u8> { xor(self.ciphertext@, ks(k, self.explicit_nonce@, self.ciphertext@.len() as int)) }
    pub open spec fn tag_ok(&self, k: Keys) -> bool { self.tag@ == gtag(k, self.explicit_nonce@, self.aad@, self.ciphertext@) }
    pub open spec fn wf(&self) -> bool { self.mode == dmode(self.typ) }
}
// ---- encrypting
impl EncryptPrivate {
    pub closed spec fn c(&self) -> Seq<u8> { self.ciphertext.v() }
//@fn crates/mpc-tls/src/record_layer/encrypt.rs EncryptPrivate::try_encrypt
    ensures r is Ok ==> (r->Ok_0)@ == self.c(),
//@end
}
impl EncryptPublic {
    pub closed spec fn c(&self) -> Seq<u8> { xor(self.plaintext@, self.keystream.v()) }
    pub closed spec fn fits(&self) -> bool { self.plaintext@.len() == self.keystream.v().len() }
//@fn crates/mpc-tls/src/record_layer/encrypt.rs EncryptPublic::try_encrypt
    ensures r is Ok ==> (r->Ok_0)@ == self.c() && self.fits(),
//@subreq (?s)(\w+)\s*\.iter_mut\(\)\s*\.zip\((\w+)\)\s*\.for_each\(\s*\|\((\w+), (\w+)\)\|\s*\*\w+ ([^;]*?)\); =>> { let ghost vx_o = $1@; let mut vx_i: usize = 0; while vx_i < $1.len() && vx_i < $2.len() invariant vx_i <= $1@.len(), vx_i <= $2@.len(), $1@.len() == vx_o.len(), forall|j: int| 0 <= j < vx_i ==> $1@[j] == vx_o[j] ^ $2@[j], forall|j: int| vx_i <= j < $1@.len() ==> $1@[j] == vx_o[j], decreases $1@.len() - vx_i { let $4 = $2[vx_i]; let mut vx_a = $1[vx_i]; vx_a $5; $1.set(vx_i, vx_a); vx_i += 1; } proof { assert($1@ =~= xor(vx_o, $2@)); } }
//@end
}
impl EncryptOutput {
    pub open spec fn c(&self) -> Seq<u8> { match self { EncryptOutput::Private(e) => e.c(), EncryptOutput::Public(e) => e.c() } }
//@fn crates/mpc-tls/src/record_layer/encrypt.rs EncryptOutput::try_encrypt
    ensures r is Ok ==> (r->Ok_0)@ == self.c(),
//@end
}

//@sub MpcTlsError\s*::\s*record_layer\(format!\( => MpcTlsError::record_layer(vx_string(
//@fn crates/mpc-tls/src/record_layer/encrypt.rs private closures=result rename=enc_private
    ensures final(encrypter).k() == old(encrypter).k(),
        r is Ok ==> (r->Ok_0).0.c() == (r->Ok_0).1.v() && (op.wf() && op.mode is Private ==> op.ct(old(encrypter).k(), (r->Ok_0).0.c())),
//@subreq (?s)match (match vm\s*\.decode\(\w+\)\s*\{[^}]*\}\?)\s*\{[^}]*AeadError::tag[^}]*\} =>> CtFut::of($1)
//@end
//@fn crates/mpc-tls/src/record_layer/encrypt.rs public closures=result rename=enc_public
    ensures final(encrypter).k() == old(encrypter).k(),
        r is Ok && op.wf() && op.mode is Public ==> (r->Ok_0).0.c() == (r->Ok_0).1.v() && (op.ct(old(encrypter).k(), (r->Ok_0).0.c())),
//@subreq (?s)(\w+)\s*\.iter_mut\(\)\s*\.zip\((\w+)\)\s*\.for_each\(\s*\|\((\w+), (\w+)\)\|\s*\*\w+ ([^;]*?)\); =>> { let ghost vx_o = $1@; let mut vx_i: usize = 0; while vx_i < $1.len() && vx_i < $2.len() invariant vx_i <= $1@.len(), vx_i <= $2@.len(), $1@.len() == vx_o.len(), forall|j: int| 0 <= j < vx_i ==> $1@[j] == vx_o[j] ^ $2@[j], forall|j: int| vx_i <= j < $1@.len() ==> $1@[j] == vx_o[j], decreases $1@.len() - vx_i { let $4 = $2[vx_i]; let mut vx_a = $1[vx_i]; vx_a $5; $1.set(vx_i, vx_a); vx_i += 1; } proof { assert($1@ =~= xor(vx_o, $2@)); } }
//@tail
    proof { if op.plaintext->0@.len() == op.len { lemma_xor_comm(op.plaintext->0@, val(keystream)); } }
//@subreq (?s)match (\w+)\.vx_await\(\)\s*\{[^}]*AeadError::tag[^}]*\}\? =>> $1.vx_value()
//@subreq Ok\((\w+)\)\s*\} =>> CtFut::ready($1) }
//@end

pub open spec fn tag_data(op: EncryptOp, d: TagData) -> bool { d.explicit_nonce@ == op.explicit_nonce@ && d.aad@ == op.aad@ }
pub open spec fn encs(ops: Seq<EncryptOp>, k: Keys, p: Seq<PendingEncrypt>, c: Seq<CtFut>, d: Seq<TagData>, n: int) -> bool {
    p.len() == n && c.len() == n && d.len() == n && forall|i: int| 0 <= i < n ==> ops[i].ct(k, (#[trigger] p[i]).output.c()) && c[i].v() == p[i].output.c() && tag_data(ops[i], d[i])
}
//@fn crates/mpc-tls/src/record_layer/encrypt.rs encrypt
    requires forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).wf(),
    ensures final(encrypter).k() == old(encrypter).k(),
        r is Ok ==> { let (p, c) = (r->Ok_0); let k = old(encrypter).k(); c.k() == k && encs(ops@, k, p@, c.cts(), c.data(), ops@.len() as int) },
//@loop 0 for iter=it
    invariant forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).wf(), it.seq() == ops@.map_values(|x: EncryptOp| &x),
        encrypter.k() == old(encrypter).k(), encs(ops@, encrypter.k(), outputs@, ciphertext_futs@, tags_data@, it.index@),
//@sub \bprivate\( => enc_private(
//@sub \bpublic\( => enc_public(
//@end
// ---- decrypting
impl DecryptPrivate {
    pub closed spec fn p(&self) -> Option<Seq<u8>> { match self.otp { Some(o) => Some(Seq::new(self.ciphertext@.len(), |i: int| if i < o@.len() && i < self.masked_keystream.v().len() { self.ciphertext@[i] ^ (o@[i] ^ self.masked_keystream.v()[i]) } else { self.ciphertext@[i] })), None => None } }
//@fn crates/mpc-tls/src/record_layer/decrypt.rs DecryptPrivate::try_decrypt
    ensures r is Ok ==> (r->Ok_0 is Some <==> self.p() is Some) && (r->Ok_0 is Some ==> (r->Ok_0)->0@ == self.p()->0),
//@subreq (?s)(\w+)\s*\.iter_mut\(\)\s*\.zip\((\w+)\)\s*\.zip\((\w+)\)\s*\.for_each\(\s*\|\(\((\w+), (\w+)\), (\w+)\)\|\s*\*\w+ ([^;]*?)\); =>> { let ghost vx_o = $1@; let mut vx_i: usize = 0; while vx_i < $1.len() && vx_i < $2.len() && vx_i < $3.len() invariant vx_i <= $1@.len(), vx_i <= $2@.len(), vx_i <= $3@.len(), $1@.len() == vx_o.len(), forall|j: int| 0 <= j < vx_i ==> $1@[j] == vx_o[j] ^ ($2@[j] ^ $3@[j]), forall|j: int| vx_i <= j < $1@.len() ==> $1@[j] == vx_o[j], decreases $1@.len() - vx_i { let $5 = $2[vx_i]; let $6 = $3[vx_i]; let mut vx_a = $1[vx_i]; vx_a $7; $1.set(vx_i, vx_a); vx_i += 1; } }
//@tail
    proof { assert((__r->Ok_0)->0@ =~= self.p()->0); }
//@end
}
impl DecryptPublic {
    pub closed spec fn p(&self) -> Seq<u8> { xor(self.ciphertext@, self.keystream.v()) }
//@fn crates/mpc-tls/src/record_layer/decrypt.rs DecryptPublic::try_decrypt
    ensures r is Ok ==> (r->Ok_0)@ == self.p(),
//@subreq (?s)(\w+)\s*\.iter_mut\(\)\s*\.zip\((\w+)\)\s*\.for_each\(\s*\|\((\w+), (\w+)\)\|\s*\*\w+ ([^;]*?)\); =>> { let ghost vx_o = $1@; let mut vx_i: usize = 0; while vx_i < $1.len() && vx_i < $2.len() invariant vx_i <= $1@.len(), vx_i <= $2@.len(), $1@.len() == vx_o.len(), forall|j: int| 0 <= j < vx_i ==> $1@[j] == vx_o[j] ^ $2@[j], forall|j: int| vx_i <= j < $1@.len() ==> $1@[j] == vx_o[j], decreases $1@.len() - vx_i { let $4 = $2[vx_i]; let mut vx_a = $1[vx_i]; vx_a $5; $1.set(vx_i, vx_a); vx_i += 1; } proof { assert($1@ =~= xor(vx_o, $2@)); } }
//@end
}
impl DecryptLocal {
    pub open spec fn p(&self) -> Option<Seq<u8>> { match self.plaintext { Some(p) => Some(p@), None => None } }
//@fn crates/mpc-tls/src/record_layer/decrypt.rs DecryptLocal::try_decrypt
    ensures r is Ok ==> (r->Ok_0 is Some <==> self.p() is Some) && (r->Ok_0 is Some ==> (r->Ok_0)->0@ == self.p()->0),
//@end
}
impl DecryptOutput {
    pub open spec fn p(&self) -> Option<Seq<u8>> { match self { DecryptOutput::Private(e) => e.p(), DecryptOutput::Public(e) => Some(e.p()), DecryptOutput::Local(e) => e.p() } }
//@fn crates/mpc-tls/src/record_layer/decrypt.rs DecryptOutput::try_decrypt closures=result
    ensures r is Ok ==> (r->Ok_0 is Some <==> self.p() is Some) && (r->Ok_0 is Some ==> (r->Ok_0)->0@ == self.p()->0),
//@end
}
pub proof fn lemma_otp(c: Seq<u8>, o: Seq<u8>, k: Seq<u8>)
    requires o.len() == c.len(), k.len() == c.len(),
    ensures Seq::new(c.len(), |i: int| if i < o.len() && i < xor(o, k).len() { c[i] ^ (o[i] ^ xor(o, k)[i]) } else { c[i] }) == xor(c, k),
{
    let a = Seq::new(c.len(), |i: int| if i < o.len() && i < xor(o, k).len() { c[i] ^ (o[i] ^ xor(o, k)[i]) } else { c[i] });
    assert forall|i: int| 0 <= i < c.len() implies a[i] == xor(c, k)[i] by { let x = c[i]; let y = o[i]; let z = k[i]; assert(x ^ (y ^ (y ^ z)) == x ^ z) by (bit_vector); }
    assert(a =~= xor(c, k));
}
//@sub Option\s*<\s*&\s*mut\s+Vec\s*<\s*u8\s*>\s*> => &mut Option<Vec<u8>>
//@fn crates/mpc-tls/src/record_layer/decrypt.rs private_mpc closures=result
    ensures final(decrypter).k() == old(decrypter).k(), *final(otp) is Some <==> *old(otp) is Some,
        r is Ok ==> (r->Ok_0).p() == (if *old(otp) is Some { Some(op.pt(old(decrypter).k())) } else { None::<Seq<u8>> }),
        // the one-time pad of a record is taken off the end and never used again
        r is Ok && *old(otp) is Some ==> op.ciphertext@.len() <= (*old(otp))->0@.len() && (*final(otp))->0@ == (*old(otp))->0@.take((*old(otp))->0@.len() - op.ciphertext@.len()),
//@subreq (?s)if let Some\((\w+)\) = otp\.as_ref\(\) =>> if let Some($1) = vx_as_ref(&*otp)
//@subreq (?s)let otp = match otp \{\s*Ok\(otp\) => Ok\(otp\.split_off\((.*?)\)\),\s*Err\(__e\) => Err\(__e\),\s*\}; =>> let vx_take = otp.take(); let (vx_rest, vx_new) = match vx_take { Some(otp) => { let mut otp = otp; let vx_r = otp.split_off($1); (Some(otp), Some(vx_r)) } None => (None, None) }; *otp = vx_rest; let otp = vx_new;
//@tail
    proof { if otp is Some { lemma_otp(op.ciphertext@, otp->0@, ks(decrypter.k(), op.explicit_nonce@, op.ciphertext@.len() as int)); } }
//@end
pub fn vx_as_ref(o: &Option<Vec<u8>>) -> (r: Option<&Vec<u8>>) ensures r is Some <==> o is Some, r is Some ==> *(r->0) == o->0 { match o { Some(x) => Some(x), None => None } }
//@fn crates/mpc-tls/src/record_layer/decrypt.rs public closures=result rename=dec_public
    ensures final(decrypter).k() == old(decrypter).k(), r is Ok ==> (r->Ok_0).p() == Some(op.pt(old(decrypter).k())),
//@end

pub open spec fn dec_rel(ops: Seq<DecryptOp>, k: Keys, leader: bool, p: Seq<PendingDecrypt>, n: int) -> bool {
    p.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).output.p() == (if leader || !(ops[i].typ is ApplicationData) { Some(ops[i].pt(k)) } else { None::<Seq<u8>> })
}
pub open spec fn ct_sum(ops: Seq<DecryptOp>) -> nat decreases ops.len() { if ops.len() == 0 { 0 } else { ct_sum(ops.drop_last()) + ops.last().ciphertext@.len() } }
pub open spec fn priv_sum(ops: Seq<DecryptOp>) -> nat decreases ops.len() { if ops.len() == 0 { 0 } else { priv_sum(ops.drop_last()) + (if ops.last().mode is Private { ops.last().ciphertext@.len() } else { 0 }) } }
//@fn crates/mpc-tls/src/record_layer/decrypt.rs decrypt_mpc
    requires forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).wf(),
    ensures final(decrypter).k() == old(decrypter).k(), *final(otp) is Some <==> *old(otp) is Some,
        r is Ok ==> dec_rel(ops@, old(decrypter).k(), *old(otp) is Some, (r->Ok_0)@, ops@.len() as int),
        // every private record has its own part of the one-time pad
        r is Ok && *old(otp) is Some ==> priv_sum(ops@) <= (*old(otp))->0@.len() && (*final(otp))->0@ == (*old(otp))->0@.take((*old(otp))->0@.len() - priv_sum(ops@)),
//@sub \botp\.as_deref_mut\(\) => &mut *otp
//@sub \bpublic\( => dec_public(
//@loop 0 for iter=it
    invariant forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).wf(), it.seq() == ops@.map_values(|x: DecryptOp| &x),
        decrypter.k() == old(decrypter).k(), *otp is Some <==> *old(otp) is Some, dec_rel(ops@, old(decrypter).k(), *old(otp) is Some, pending_decrypt@, it.index@),
        *otp is Some ==> priv_sum(ops@.take(it.index@)) <= (*old(otp))->0@.len() && (*otp)->0@ == (*old(otp))->0@.take((*old(otp))->0@.len() - priv_sum(ops@.take(it.index@))),
//@loopend 0
    proof { assert(ops@.take(it.index@ + 1).drop_last() =~= ops@.take(it.index@)); assert(*otp is Some ==> (*otp)->0@ =~= (*old(otp))->0@.take((*old(otp))->0@.len() - priv_sum(ops@.take(it.index@ + 1)))); }
//@tail
    proof { assert(ops@.take(ops@.len() as int) =~= ops@); }
//@end
//@fn crates/mpc-tls/src/record_layer/decrypt.rs decrypt_local
    requires forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).wf(), old(mpc_decrypter).k() == old(local_decrypter).k(),
    ensures final(mpc_decrypter).k() == old(mpc_decrypter).k(), final(local_decrypter).k() == old(local_decrypter).k(),
        r is Ok ==> dec_rel(ops@, old(mpc_decrypter).k(), role is Leader, (r->Ok_0)@, ops@.len() as int),
        // what the leader decrypts itself is authenticated
        r is Ok && role is Leader ==> forall|i: int| 0 <= i < ops@.len() && ops@[i].typ is ApplicationData ==> (#[trigger] ops@[i]).tag_ok(old(mpc_decrypter).k()),
//@sub \bpublic\( => dec_public(
//@loop 0 for iter=it
    invariant forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i]).wf(), it.seq() == ops@.map_values(|x: DecryptOp| &x),
        mpc_decrypter.k() == old(mpc_decrypter).k(), local_decrypter.k() == old(mpc_decrypter).k(), old(local_decrypter).k() == old(mpc_decrypter).k(), dec_rel(ops@, old(mpc_decrypter).k(), role is Leader, pending_decrypt@, it.index@),
        role is Leader ==> forall|i: int| 0 <= i < it.index@ && ops@[i].typ is ApplicationData ==> (#[trigger] ops@[i]).tag_ok(old(mpc_decrypter).k()),
//@end
pub open spec fn vt_rel(ops: Seq<DecryptOp>, c: Seq<Vec<u8>>, t: Seq<Vec<u8>>, d: Seq<TagData>, n: int) -> bool {
    c.len() == n && t.len() == n && d.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] c[i])@ == ops[i].ciphertext@ && t[i]@ == ops[i].tag@ && d[i].explicit_nonce@ == ops[i].explicit_nonce@ && d[i].aad@ == ops[i].aad@
}
//@fn crates/mpc-tls/src/record_layer/decrypt.rs verify_tags closures=result
    ensures final(decrypter).k() == old(decrypter).k(),
        r is Ok ==> r->Ok_0.k() == old(decrypter).k() && vt_rel(ops@, r->Ok_0.cts(), r->Ok_0.tags(), r->Ok_0.data(), ops@.len() as int),
//@loop 0 for iter=it
    invariant it.seq() == ops@.map_values(|x: DecryptOp| &x), decrypter.k() == old(decrypter).k(), vt_rel(ops@, ciphertexts@, tags@, tags_data@, it.index@),
//@end

pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::front] (d: &std::collections::VecDeque<T, A>) -> (r: Option<&T>) ensures r is Some <==> d@.len() > 0, r is Some ==> *(r->0) == d@[0];
// ---- the record layer
//@sub Arc\s*<\s*Mutex\s*<\s*MpcAesGcm\s*>\s*> => MpcAesGcm
//@sub \b1 << 20\b => 1048576
//@type crates/mpc-tls/src/record_layer.rs const MAX_RECORD_SIZE
//@type crates/mpc-tls/src/record_layer.rs const MAX_BUFFER_SIZE
/// what the leader can make the follower buffer
pub proof fn lemma_buffer() ensures 0 < MAX_BUFFER_SIZE, MAX_BUFFER_SIZE * MAX_RECORD_SIZE <= 16 * 1024 * 1024, MAX_RECORD_SIZE >= 16384 {}
//@type crates/mpc-tls/src/record_layer.rs struct PlainRecord
//@type crates/mpc-tls/src/record_layer.rs struct EncryptedRecord
//@type crates/mpc-tls/src/record_layer.rs enum State
//@type crates/mpc-tls/src/record_layer.rs struct RecordLayer
impl MpcAesGcm {
    #[verifier::external_body]
    pub fn alloc(&mut self, vm: &mut VxVm, records: usize, len: usize) -> (r: Result<(), VxErr>) ensures final(self).k() == old(self).k() { unimplemented!() }
    #[verifier::external_body]
    pub fn preprocess(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) ensures final(self).k() == old(self).k() { unimplemented!() }
    #[verifier::external_body]
    pub fn setup(&mut self, ctx: &mut Ctx) -> (r: Result<(), VxErr>) ensures final(self).k() == old(self).k() { unimplemented!() }
    #[verifier::external_body]
    pub fn ghash_key(&mut self) -> (r: Result<Array<16>, VxErr>) ensures final(self).k() == old(self).k() { unimplemented!() }
}
impl AesGcm {
    #[verifier::external_body]
    pub fn alloc(&mut self, vm: &mut VxVm) -> (r: Result<(), MpcTlsError>) ensures final(self).k() == old(self).k() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(role: Role) -> (r: AesGcm) ensures r.k().leader == (role is Leader) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fill(v: &mut Vec<u8>) ensures final(v)@.len() == old(v)@.len() { unimplemented!() }
impl State {
//@fn crates/mpc-tls/src/record_layer.rs State::take
    ensures r == *old(self), *final(self) is Error,
//@end
}
impl RecordLayer {
    pub open spec fn wf(&self) -> bool {
        self.encrypter.k().leader == (self.role is Leader) && self.decrypter.k().leader == (self.role is Leader) && self.aes_gcm.k().leader == (self.role is Leader) && self.sent <= self.max_sent && self.recv <= self.max_recv && self.recv_online <= self.max_recv_online && self.recv_online + ct_sum(self.decrypt_buffer@) <= self.recv
        && (forall|i: int| 0 <= i < self.encrypt_buffer@.len() ==> (#[trigger] self.encrypt_buffer@[i]).wf())
        && (forall|i: int| 0 <= i < self.decrypt_buffer@.len() ==> (#[trigger] self.decrypt_buffer@[i]).wf())
        && (self.state is Init ==> self.max_sent == 0 && self.max_recv == 0 && self.max_recv_online == 0)
        && (self.state is Online ==> ((self.state->recv_otp is Some) <==> self.role is Leader))
    }
    /// only the ciphers may have moved on, under the same keys
    pub open spec fn ready_as(&self, o: RecordLayer) -> bool { self.encrypter.k() == o.encrypter.k() && self.decrypter.k() == o.decrypter.k() && *self == (RecordLayer { encrypter: self.encrypter, decrypter: self.decrypter, ..o }) }
    pub open spec fn rest_of(&self, o: RecordLayer) -> bool { *self == (RecordLayer { encrypter: self.encrypter, decrypter: self.decrypter, aes_gcm: self.aes_gcm, state: self.state, max_sent: self.max_sent, max_recv_online: self.max_recv_online, max_recv: self.max_recv, ..o }) }
    pub open spec fn keyed(&self) -> bool { self.aes_gcm.k() == self.decrypter.k() }
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::new
    requires encrypter.k().leader == (role is Leader), decrypter.k().leader == (role is Leader),
    ensures r.wf(), r.role == role, r.write_seq == 0, r.read_seq == 0, r.state is Init, !r.started, r.sent == 0, r.recv == 0, r.recv_online == 0,
        r.encrypt_buffer@.len() == 0, r.decrypt_buffer@.len() == 0, r.encrypted_buffer@.len() == 0, r.decrypted_buffer@.len() == 0,
//@sub Arc\s*::\s*new\(Mutex\s*::\s*new\((\w+)\)\) => $1
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::alloc closures=result
    requires old(self).wf(),
    ensures final(self).wf() || r is Err,
        r is Ok ==> old(self).state is Init && final(self).max_sent == sent_len && final(self).max_recv_online == recv_len_online && final(self).max_recv == recv_len
            && final(self).state is Online && final(self).state->sent_records@.len() == 0 && final(self).state->recv_records@.len() == 0
            && (final(self).role is Leader ==> (final(self).state->recv_otp)->0@.len() == recv_len_online)
            && final(self).decrypter.k() == old(self).decrypter.k() && final(self).encrypter.k() == old(self).encrypter.k() && final(self).aes_gcm.k() == old(self).aes_gcm.k()
            && final(self).rest_of(*old(self)),
//@sub rng\(\)\s*\.fill_bytes\( => vx_fill(
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::set_keys closures=result
    requires old(self).wf(),
    ensures final(self).wf(), r is Ok ==> *final(self) == (RecordLayer { encrypter: final(self).encrypter, decrypter: final(self).decrypter, aes_gcm: final(self).aes_gcm, ..*old(self) }) && final(self).keyed() && final(self).encrypter.k() == (Keys { key: client_write_key, iv: client_iv, leader: old(self).role is Leader }) && final(self).decrypter.k() == (Keys { key: server_write_key, iv: server_iv, leader: old(self).role is Leader }),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::preprocess closures=result
    requires old(self).wf(),
    ensures r is Ok ==> final(self).wf() && final(self).ready_as(*old(self)),
//@sub \.clone\(\)\s*\.try_lock_owned\(\) => .try_lock()
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::setup closures=result
    requires old(self).wf(),
    ensures r is Ok ==> final(self).wf() && final(self).ready_as(*old(self)),
//@sub \.clone\(\)\s*\.try_lock_owned\(\) => .try_lock()
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::is_empty
    ensures r <==> self.encrypt_buffer@.len() == 0 && self.decrypt_buffer@.len() == 0 && self.encrypted_buffer@.len() == 0 && self.decrypted_buffer@.len() == 0,
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::wants_flush
    ensures r <==> self.encrypt_buffer@.len() > 0 || self.decrypt_buffer@.len() > 0,
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::start_traffic
    ensures *final(self) == (RecordLayer { started: true, ..*old(self) }),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::next_write
    requires old(self).write_seq < u64::MAX,
    ensures *final(self) == (RecordLayer { write_seq: (old(self).write_seq + 1) as u64, ..*old(self) }), r.0 == old(self).write_seq, r.1@ == be64(r.0), r.2@ == aad_of(r.0, typ, version, len as int),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::next_read
    requires old(self).read_seq < u64::MAX,
    ensures *final(self) == (RecordLayer { read_seq: (old(self).read_seq + 1) as u64, ..*old(self) }), r.0 == old(self).read_seq, r.1@ == aad_of(r.0, typ, version, len as int),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::push_encrypt
    requires old(self).wf(), old(self).write_seq < u64::MAX,
    ensures final(self).wf() || r is Err,
        r is Ok <==> old(self).encrypt_buffer@.len() < MAX_BUFFER_SIZE && old(self).sent + len <= old(self).max_sent && enc_ok(typ, len as int, plaintext),
        r is Ok ==> final(self).encrypt_buffer@.len() == old(self).encrypt_buffer@.len() + 1 && final(self).encrypt_buffer@.drop_last() == old(self).encrypt_buffer@ && ({ let op = final(self).encrypt_buffer@.last();
            op.seq == old(self).write_seq && op.typ == typ && op.version == version && op.len == len && op.plaintext == plaintext && op.explicit_nonce@ == be64(old(self).write_seq) && op.aad@ == aad_of(old(self).write_seq, typ, version, len as int) && op.mode == emode(typ) })
            && *final(self) == (RecordLayer { write_seq: (old(self).write_seq + 1) as u64, sent: (old(self).sent + len) as usize, encrypt_buffer: final(self).encrypt_buffer, ..*old(self) }),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::push_decrypt
    requires old(self).wf(), old(self).read_seq < u64::MAX,
    ensures final(self).wf() || r is Err,
        r is Ok <==> old(self).decrypt_buffer@.len() < MAX_BUFFER_SIZE && old(self).recv + ciphertext@.len() <= old(self).max_recv,
        r is Ok ==> final(self).decrypt_buffer@.len() == old(self).decrypt_buffer@.len() + 1 && final(self).decrypt_buffer@.drop_last() == old(self).decrypt_buffer@ && ({ let op = final(self).decrypt_buffer@.last();
            op.seq == old(self).read_seq && op.typ == typ && op.version == version && op.explicit_nonce == explicit_nonce && op.ciphertext == ciphertext && op.tag == tag && op.aad@ == aad_of(old(self).read_seq, typ, version, ciphertext@.len() as int) && op.mode == dmode(typ) })
            && *final(self) == (RecordLayer { read_seq: (old(self).read_seq + 1) as u64, recv: (old(self).recv + ciphertext@.len()) as usize, decrypt_buffer: final(self).decrypt_buffer, ..*old(self) }),
//@tail
    proof { assert(self.decrypt_buffer@.drop_last() =~= old(self).decrypt_buffer@); }
//@end
}

// ---- what a flush leaves behind
pub open spec fn vw(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(x) => Some(x@), None => None } }
pub open spec fn otag(k: Keys, op: EncryptOp, ct: Seq<u8>, tag: Option<Vec<u8>>) -> bool { tag is Some ==> tag->0@ == gtag(k, op.explicit_nonce@, op.aad@, ct) }
/// the encrypted record and transcript record of an operation
pub open spec fn enc_out(k: Keys, op: EncryptOp, e: EncryptedRecord, t: Record) -> bool {
    &&& e.typ == op.typ && e.version == op.version && e.explicit_nonce@ == op.explicit_nonce@ && op.ct(k, e.ciphertext@) && otag(k, op, e.ciphertext@, e.tag)
    &&& t.seq == op.seq && t.typ == rtype(op.typ) && t.explicit_nonce@ == op.explicit_nonce@ && t.ciphertext@ == e.ciphertext@ && t.plaintext == op.plaintext && vw(t.tag) == vw(e.tag)
}
pub open spec fn dec_out(k: Keys, leader: bool, op: DecryptOp, e: PlainRecord, t: Record) -> bool {
    let p = if leader || !(op.typ is ApplicationData) { Some(op.pt(k)) } else { None::<Seq<u8>> };
    &&& e.typ == op.typ && e.version == op.version && vw(e.plaintext) == p
    &&& t.seq == op.seq && t.typ == rtype(op.typ) && t.explicit_nonce@ == op.explicit_nonce@ && t.ciphertext@ == op.ciphertext@ && vw(t.plaintext) == p && t.tag is Some && t.tag->0@ == op.tag@
}
pub open spec fn enc_outs(k: Keys, ops: Seq<EncryptOp>, e0: Seq<EncryptedRecord>, t0: Seq<Record>, e: Seq<EncryptedRecord>, t: Seq<Record>, n: int) -> bool {
    e.len() == e0.len() + n && t.len() == t0.len() + n && (forall|i: int| 0 <= i < e0.len() ==> #[trigger] e[i] == e0[i]) && (forall|i: int| 0 <= i < t0.len() ==> #[trigger] t[i] == t0[i])
    && forall|i: int| 0 <= i < n ==> enc_out(k, #[trigger] ops[i], e[e0.len() + i], t[t0.len() + i])
}
pub open spec fn dec_outs(k: Keys, leader: bool, ops: Seq<DecryptOp>, e0: Seq<PlainRecord>, t0: Seq<Record>, e: Seq<PlainRecord>, t: Seq<Record>, n: int) -> bool {
    e.len() == e0.len() + n && t.len() == t0.len() + n && (forall|i: int| 0 <= i < e0.len() ==> #[trigger] e[i] == e0[i]) && (forall|i: int| 0 <= i < t0.len() ==> #[trigger] t[i] == t0[i])
    && forall|i: int| 0 <= i < n ==> dec_out(k, leader, #[trigger] ops[i], e[e0.len() + i], t[t0.len() + i])
}
pub proof fn lemma_enc_start(k: Keys, ops: Seq<EncryptOp>, e0: Seq<EncryptedRecord>, t0: Seq<Record>) ensures enc_outs(k, ops, e0, t0, e0, t0, 0) {}
pub proof fn lemma_enc_push(k: Keys, ops: Seq<EncryptOp>, e0: Seq<EncryptedRecord>, t0: Seq<Record>, e: Seq<EncryptedRecord>, t: Seq<Record>, n: int, x: EncryptedRecord, y: Record)
    requires enc_outs(k, ops, e0, t0, e, t, n), 0 <= n < ops.len(), enc_out(k, ops[n], x, y),
    ensures enc_outs(k, ops, e0, t0, e.push(x), t.push(y), n + 1),
{}
pub proof fn lemma_dec_start(k: Keys, leader: bool, ops: Seq<DecryptOp>, e0: Seq<PlainRecord>, t0: Seq<Record>) ensures dec_outs(k, leader, ops, e0, t0, e0, t0, 0) {}
pub proof fn lemma_dec_push(k: Keys, leader: bool, ops: Seq<DecryptOp>, e0: Seq<PlainRecord>, t0: Seq<Record>, e: Seq<PlainRecord>, t: Seq<Record>, n: int, x: PlainRecord, y: Record)
    requires dec_outs(k, leader, ops, e0, t0, e, t, n), 0 <= n < ops.len(), dec_out(k, leader, ops[n], x, y),
    ensures dec_outs(k, leader, ops, e0, t0, e.push(x), t.push(y), n + 1),
{}
/// the received records processed by a flush: all, or those before the first application data
pub open spec fn cut(ops: Seq<DecryptOp>) -> nat decreases ops.len() { if ops.len() == 0 || ops[0].typ is ApplicationData { 0 } else { 1 + cut(ops.skip(1)) } }
pub open spec fn processed(ops: Seq<DecryptOp>, online: bool) -> int { if online { ops.len() as int } else { cut(ops) as int } }
pub proof fn lemma_processed(ops: Seq<DecryptOp>, online: bool) ensures 0 <= processed(ops, online) <= ops.len() decreases ops.len() { if ops.len() > 0 { lemma_processed(ops.skip(1), false); } }
pub proof fn lemma_cut(ops: Seq<DecryptOp>, p: int)
    requires 0 <= p <= ops.len(), forall|j: int| 0 <= j < p ==> !((#[trigger] ops[j]).typ is ApplicationData), p < ops.len() ==> ops[p].typ is ApplicationData,
    ensures cut(ops) == p,
    decreases ops.len(),
{ if ops.len() > 0 && p > 0 { lemma_cut(ops.skip(1), p - 1); assert(!(ops[0].typ is ApplicationData)); } }
pub proof fn lemma_ct_sum(ops: Seq<DecryptOp>, n: int)
    requires 0 <= n <= ops.len(),
    ensures ct_sum(ops) == ct_sum(ops.take(n)) + ct_sum(ops.skip(n)),
    decreases ops.len(),
{
    if n == ops.len() { assert(ops.take(n) =~= ops); assert(ops.skip(n) =~= Seq::<DecryptOp>::empty()); }
    else { lemma_ct_sum(ops.drop_last(), n); assert(ops.drop_last().take(n) =~= ops.take(n)); assert(ops.drop_last().skip(n) =~= ops.skip(n).drop_last()); assert(ops.skip(n).last() == ops.last()); }
}
pub fn vx_position<F: Fn(&DecryptOp) -> bool>(v: &Vec<DecryptOp>, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r is Some ==> r->0 < v@.len() && call_ensures(f, (&v@[r->0 as int],), true) && forall|j: int| 0 <= j < r->0 ==> call_ensures(f, (&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (&#[trigger] v@[j],), false),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|j: int| 0 <= j < v@.len() ==> call_requires(f, (&#[trigger] v@[j],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i,
    { if f(&v[i]) { return Some(i); } i += 1; }
    None
}
#[verifier::external_body]
pub fn vx_pop<T>(o: &mut Option<Vec<T>>) -> (r: Option<T>)
    ensures *old(o) is None ==> r is None && *final(o) is None,
        *old(o) is Some ==> *final(o) is Some && (if (*old(o))->0@.len() == 0 { r is None && (*final(o))->0@ == (*old(o))->0@ } else { r == Some((*old(o))->0@.last()) && (*final(o))->0@ == (*old(o))->0@.drop_last() }),
{ unimplemented!() }
pub open spec fn tags_left(all: Option<Seq<Vec<u8>>>, left: Option<Vec<Vec<u8>>>, n: int) -> bool {
    (all is Some <==> left is Some) && (all is Some ==> left->0@.len() == all->0.len() - n && forall|j: int| 0 <= j < left->0@.len() ==> (#[trigger] left->0@[j]) == all->0[all->0.len() - 1 - j])
}
pub open spec fn tags_rev(t: Option<Vec<Vec<u8>>>) -> Option<Seq<Vec<u8>>> { match t { Some(t) => Some(t@.reverse()), None => None } }
pub open spec fn tag_rel(k: Keys, ops: Seq<EncryptOp>, p: Seq<PendingEncrypt>, t: Option<Seq<Vec<u8>>>) -> bool { t is Some ==> t->0.len() == ops.len() && forall|i: int| 0 <= i < ops.len() ==> (#[trigger] t->0[i])@ == gtag(k, ops[i].explicit_nonce@, ops[i].aad@, p[i].output.c()) }
impl RecordLayer {
    pub open spec fn same_conf(&self, o: RecordLayer) -> bool {
        self.role == o.role && self.write_seq == o.write_seq && self.read_seq == o.read_seq && self.started == o.started && self.sent == o.sent && self.recv == o.recv && self.max_sent == o.max_sent && self.max_recv == o.max_recv
        && self.max_recv_online == o.max_recv_online && self.encrypter.k() == o.encrypter.k() && self.decrypter.k() == o.decrypter.k() && self.aes_gcm.k() == o.aes_gcm.k()
    }
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::next_encrypted closures=option
    ensures ({ let q = old(self).encrypted_buffer@; if q.len() == 0 || (!old(self).started && q[0].typ is ApplicationData) { r is None && *final(self) == *old(self) } else { r == Some(q[0]) && final(self).encrypted_buffer@ == q.skip(1) && *final(self) == (RecordLayer { encrypted_buffer: final(self).encrypted_buffer, ..*old(self) }) } }),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::next_decrypted closures=option
    ensures ({ let q = old(self).decrypted_buffer@; if q.len() == 0 || (!old(self).started && q[0].typ is ApplicationData) { r is None && *final(self) == *old(self) } else { r == Some(q[0]) && final(self).decrypted_buffer@ == q.skip(1) && *final(self) == (RecordLayer { decrypted_buffer: final(self).decrypted_buffer, ..*old(self) }) } }),
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::flush closures=result "attr=#[verifier::loop_isolation(false)]"
    requires old(self).wf(),
    ensures r is Ok ==> ({
        let o = *old(self); let n = processed(o.decrypt_buffer@, is_decrypting); let d = o.decrypt_buffer@.take(n); let f = *final(self); let (ke, kd) = (o.encrypter.k(), o.decrypter.k());
        &&& o.state is Online && f.state is Online && f.wf() && f.same_conf(o)
        &&& f.encrypt_buffer@.len() == 0 && f.decrypt_buffer@ == o.decrypt_buffer@.skip(n)
        &&& enc_outs(ke, o.encrypt_buffer@, o.encrypted_buffer@, o.state->sent_records@, f.encrypted_buffer@, f.state->sent_records@, o.encrypt_buffer@.len() as int)
        &&& dec_outs(kd, o.role is Leader, d, o.decrypted_buffer@, o.state->recv_records@, f.decrypted_buffer@, f.state->recv_records@, n)
        &&& o.role is Leader ==> forall|i: int| 0 <= i < n ==> (#[trigger] d[i]).tag_ok(kd)
        &&& f.recv_online == (if is_decrypting { o.recv_online + ct_sum(d) } else { o.recv_online as int })
        &&& o.role is Leader ==> priv_sum(d) <= (o.state->recv_otp)->0@.len() && (f.state->recv_otp)->0@ == (o.state->recv_otp)->0@.take((o.state->recv_otp)->0@.len() - priv_sum(d))
    }),
//@sub (\w+(?:\.\w+)*)\.drain\(\.\.\)\.collect\(\) => { let vx_n = $1.len(); vx_drain(&mut $1, vx_n) }
//@sub (\w+(?:\.\w+)*)\.drain\(\.\.(\w+)\)\.collect\(\) => vx_drain(&mut $1, $2)
//@sub &mut \(\*vm\) => &mut vm
//@sub &mut (encrypter|decrypter)\b => &mut *$1
//@sub \b(encrypt::|decrypt::) => 
//@sub \brecv_otp\.as_mut\(\) => &mut *recv_otp
//@sub (\w+\.typ)\.into\(\) => RecType::vx_from($1)
//@sub (\w+)\.as_mut\(\)\.and_then\(Vec::pop\) => vx_pop(&mut $1)
//@sub if let Some\((\w+)\) = (\w+)\.as_mut\(\) => if let Some($1) = &mut $2
//@sub (\w+)\.reverse\(\) => vx_reverse($1)
//@subreq (?s)self\s*\.decrypt_buffer\s*\.iter\(\)\s*\.position\(\|(\w+)\|\s*(.*?)\)\s*\.unwrap_or =>> vx_position(&self.decrypt_buffer, |$1: &DecryptOp| -> (b: bool) ensures b == ($1.typ is ApplicationData) { $2 }).unwrap_or
//@subreq (?s)(\w+)\.iter\(\)\.map\(\|(\w+)\|\s*(.*?)\)\.sum\(\) =>> { let mut vx_s: usize = 0; proof { assert($1@.take(0) =~= Seq::empty()); } for $2 in vx_it: $1.iter() invariant vx_it.seq() == $1@.map_values(|x: DecryptOp| &x), vx_s == ct_sum($1@.take(vx_it.index@)), ct_sum($1@) <= usize::MAX, { proof { assert($1@.take(vx_it.index@ + 1).drop_last() =~= $1@.take(vx_it.index@)); lemma_ct_sum($1@, vx_it.index@ + 1); } vx_s = vx_s + ($3); } proof { assert($1@.take($1@.len() as int) =~= $1@); } vx_s }
//@sub (?s)for \((\w+), (\w+)\) in it: (\w+)\.into_iter\(\)\.zip\((\w+)\)(.*?)/\*vxb(\d)\*/ => let ghost vx_o$6 = $3@; let ghost vx_p$6 = $4@; let ghost vx_t$6 = tags_rev(tags); let vx_z = vx_zip($3, $4); proof { lemma_enc_start(old(self).encrypter.k(), old(self).encrypt_buffer@, old(self).encrypted_buffer@, old(self).state->sent_records@); lemma_dec_start(old(self).decrypter.k(), old(self).role is Leader, vx_d, old(self).decrypted_buffer@, old(self).state->recv_records@); } for vx_x in it: vx_z $5 let ($1, $2) = vx_x; let ghost vx_eb = self.encrypted_buffer@; let ghost vx_db = self.decrypted_buffer@; let ghost vx_sr = sent_records@; let ghost vx_rr = recv_records@;
//@loop 0 for iter=it
    invariant it.seq().len() == vx_o0.len(), forall|i: int| 0 <= i < vx_o0.len() ==> (#[trigger] it.seq()[i]).0 == vx_o0[i] && it.seq()[i].1 == vx_p0[i],
        vx_p0.len() == vx_o0.len(), forall|i: int| 0 <= i < vx_o0.len() ==> vx_o0[i].ct(old(self).encrypter.k(), (#[trigger] vx_p0[i]).output.c()),
        tag_rel(old(self).encrypter.k(), vx_o0, vx_p0, vx_t0), tags_left(vx_t0, tags, it.index@),
        enc_outs(old(self).encrypter.k(), vx_o0, old(self).encrypted_buffer@, old(self).state->sent_records@, self.encrypted_buffer@, sent_records@, it.index@),
        self.role == old(self).role, self.write_seq == old(self).write_seq, self.read_seq == old(self).read_seq, self.started == old(self).started, self.sent == old(self).sent, self.recv == old(self).recv, self.max_sent == old(self).max_sent, self.max_recv == old(self).max_recv, self.max_recv_online == old(self).max_recv_online, self.encrypter.k() == old(self).encrypter.k(), self.decrypter.k() == old(self).decrypter.k(), self.aes_gcm.k() == old(self).aes_gcm.k(), self.encrypt_buffer@.len() == 0, self.decrypt_buffer@ == db, self.recv_online == ro, self.decrypted_buffer@ == old(self).decrypted_buffer@,
//@loopbegin 0
    /*vxb0*/
//@loopend 0
    proof { let x = self.encrypted_buffer@.last(); let y = sent_records@.last(); assert(self.encrypted_buffer@ == vx_eb.push(x)); assert(sent_records@ == vx_sr.push(y)); let n = it.index@; assert(enc_out(old(self).encrypter.k(), vx_o0[n], x, y)); lemma_enc_push(old(self).encrypter.k(), vx_o0, old(self).encrypted_buffer@, old(self).state->sent_records@, vx_eb, vx_sr, n, x, y); }
//@loop 1 for iter=it
    invariant it.seq().len() == vx_o1.len(), forall|i: int| 0 <= i < vx_o1.len() ==> (#[trigger] it.seq()[i]).0 == vx_o1[i] && it.seq()[i].1 == vx_p1[i],
        dec_rel(vx_o1, old(self).decrypter.k(), old(self).role is Leader, vx_p1, vx_o1.len() as int),
        dec_outs(old(self).decrypter.k(), old(self).role is Leader, vx_o1, old(self).decrypted_buffer@, old(self).state->recv_records@, self.decrypted_buffer@, recv_records@, it.index@),
        self.role == old(self).role, self.write_seq == old(self).write_seq, self.read_seq == old(self).read_seq, self.started == old(self).started, self.sent == old(self).sent, self.recv == old(self).recv, self.max_sent == old(self).max_sent, self.max_recv == old(self).max_recv, self.max_recv_online == old(self).max_recv_online, self.encrypter.k() == old(self).encrypter.k(), self.decrypter.k() == old(self).decrypter.k(), self.aes_gcm.k() == old(self).aes_gcm.k(), self.encrypt_buffer@.len() == 0, self.decrypt_buffer@ == db, self.recv_online == ro,
        enc_outs(old(self).encrypter.k(), old(self).encrypt_buffer@, old(self).encrypted_buffer@, old(self).state->sent_records@, self.encrypted_buffer@, sent_records@, old(self).encrypt_buffer@.len() as int),
//@loopbegin 1
    /*vxb1*/
//@loopend 1
    proof { let x = self.decrypted_buffer@.last(); let y = recv_records@.last(); assert(self.decrypted_buffer@ == vx_db.push(x)); assert(recv_records@ == vx_rr.push(y)); let n = it.index@; assert(dec_out(old(self).decrypter.k(), old(self).role is Leader, vx_o1[n], x, y)); lemma_dec_push(old(self).decrypter.k(), old(self).role is Leader, vx_o1, old(self).decrypted_buffer@, old(self).state->recv_records@, vx_db, vx_rr, n, x, y); }
//@begin
    hide(enc_outs); hide(dec_outs);
//@tail
    proof {
        let o = *old(self); let n = processed(o.decrypt_buffer@, is_decrypting); let d = o.decrypt_buffer@.take(n); let (ke, kd) = (o.encrypter.k(), o.decrypter.k());
        assert(o.state is Online && self.state is Online);
        assert(self.same_conf(o));
        assert(db == o.decrypt_buffer@.skip(n)); assert(vx_o1 == d); assert(vx_o0 =~= o.encrypt_buffer@);
        assert(enc_outs(ke, o.encrypt_buffer@, o.encrypted_buffer@, o.state->sent_records@, self.encrypted_buffer@, self.state->sent_records@, o.encrypt_buffer@.len() as int));
        assert(dec_outs(kd, o.role is Leader, d, o.decrypted_buffer@, o.state->recv_records@, self.decrypted_buffer@, self.state->recv_records@, n));
        assert forall|i: int| 0 <= i < n && o.role is Leader implies (#[trigger] d[i]).tag_ok(kd) by { assert(vt.cts()[i]@ == d[i].ciphertext@); assert(vt.tags()[i]@ == gtag(vt.k(), vt.data()[i].explicit_nonce@, vt.data()[i].aad@, vt.cts()[i]@)); };
        assert(self.recv_online == (if is_decrypting { o.recv_online + ct_sum(d) } else { o.recv_online as int }));
        assert(o.role is Leader ==> priv_sum(d) <= (o.state->recv_otp)->0@.len() && (self.state->recv_otp)->0@ == (o.state->recv_otp)->0@.take((o.state->recv_otp)->0@.len() - priv_sum(d)));
        assert(self.wf());
    }
//@after verify_tags 0
    let ghost vt = verify_tags;
//@before is_empty 0
    proof { lemma_enc_start(old(self).encrypter.k(), old(self).encrypt_buffer@, old(self).encrypted_buffer@, old(self).state->sent_records@); lemma_dec_start(old(self).decrypter.k(), old(self).role is Leader, decrypt_ops@, old(self).decrypted_buffer@, old(self).state->recv_records@); if decrypt_ops@.len() == 0 { assert(old(self).decrypt_buffer@.take(0) =~= decrypt_ops@); assert(self.decrypt_buffer@ =~= old(self).decrypt_buffer@); if !is_decrypting { lemma_cut(old(self).decrypt_buffer@, 0); } } }
//@before encrypt 0
    let ghost vx_d = decrypt_ops@;
    let ghost db = self.decrypt_buffer@; let ghost ro = self.recv_online;
    proof {
        let o = *old(self); let n = processed(o.decrypt_buffer@, is_decrypting);
        if !is_decrypting { lemma_cut(o.decrypt_buffer@, decrypt_ops@.len() as int); }
        assert(o.decrypt_buffer@.take(o.decrypt_buffer@.len() as int) =~= o.decrypt_buffer@);
        lemma_ct_sum(o.decrypt_buffer@, n);
    }
//@end
//@fn crates/mpc-tls/src/record_layer.rs RecordLayer::commit closures=result
    requires old(self).wf(), old(self).keyed(),
    ensures r is Ok ==> ({
        let o = *old(self); let n = o.decrypt_buffer@.len() as int; let d = o.decrypt_buffer@; let f = *final(self); let kd = o.decrypter.k();
        &&& o.state is Online && f.state is Complete && f.same_conf(o)
        &&& o.encrypt_buffer@.len() == 0 && f.encrypt_buffer@.len() == 0 && f.decrypt_buffer@.len() == 0 && f.encrypted_buffer@ == o.encrypted_buffer@
        &&& (r->Ok_0).0@ == o.state->sent_records@
        &&& dec_outs(kd, o.role is Leader, d, o.decrypted_buffer@, o.state->recv_records@, f.decrypted_buffer@, (r->Ok_0).1@, n)
        &&& o.role is Leader ==> forall|i: int| 0 <= i < n && d[i].typ is ApplicationData ==> (#[trigger] d[i]).tag_ok(kd)
    }), r is Err ==> !(final(self).state is Online),
//@begin
    hide(dec_outs);
//@sub \btake\(&mut self\.decrypt_buffer\) => vx_take(&mut self.decrypt_buffer)
//@sub &mut \(\*vm\) => &mut vm
//@sub &mut decrypter\b => &mut *decrypter
//@sub \b(encrypt::|decrypt::) => 
//@sub (\w+\.typ)\.into\(\) => RecType::vx_from($1)
//@sub (?s)for \((\w+), (\w+)\) in it: (\w+)\.into_iter\(\)\.zip\((\w+)\)(.*?)/\*vxb(\d)\*/ => let ghost vx_o$6 = $3@; let ghost vx_p$6 = $4@; let vx_z = vx_zip($3, $4); proof { lemma_dec_start(old(self).decrypter.k(), old(self).role is Leader, vx_o$6, old(self).decrypted_buffer@, old(self).state->recv_records@); } for vx_x in it: vx_z $5 let ($1, $2) = vx_x; let ghost vx_db = self.decrypted_buffer@; let ghost vx_rr = recv_records@;
//@loop 0 for iter=it
    invariant it.seq().len() == vx_o1.len(), forall|i: int| 0 <= i < vx_o1.len() ==> (#[trigger] it.seq()[i]).0 == vx_o1[i] && it.seq()[i].1 == vx_p1[i],
        dec_rel(vx_o1, old(self).decrypter.k(), old(self).role is Leader, vx_p1, vx_o1.len() as int),
        dec_outs(old(self).decrypter.k(), old(self).role is Leader, vx_o1, old(self).decrypted_buffer@, old(self).state->recv_records@, self.decrypted_buffer@, recv_records@, it.index@),
        self.role == old(self).role, self.write_seq == old(self).write_seq, self.read_seq == old(self).read_seq, self.started == old(self).started, self.sent == old(self).sent, self.recv == old(self).recv, self.max_sent == old(self).max_sent, self.max_recv == old(self).max_recv, self.max_recv_online == old(self).max_recv_online, self.encrypter.k() == old(self).encrypter.k(), self.decrypter.k() == old(self).decrypter.k(), self.aes_gcm.k() == old(self).aes_gcm.k(), self.encrypt_buffer@ == old(self).encrypt_buffer@, self.decrypt_buffer@.len() == 0, self.encrypted_buffer@ == old(self).encrypted_buffer@, self.state is Error,
//@loopbegin 0
    /*vxb1*/
//@loopend 0
    proof { let x = self.decrypted_buffer@.last(); let y = recv_records@.last(); assert(self.decrypted_buffer@ == vx_db.push(x)); assert(recv_records@ == vx_rr.push(y)); let n = it.index@; assert(dec_out(old(self).decrypter.k(), old(self).role is Leader, vx_o1[n], x, y)); lemma_dec_push(old(self).decrypter.k(), old(self).role is Leader, vx_o1, old(self).decrypted_buffer@, old(self).state->recv_records@, vx_db, vx_rr, n, x, y); }
//@end
}
}
