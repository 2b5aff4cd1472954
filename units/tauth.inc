verus! {
// ---- crates/tlsn/src/map.rs, for the handles it is used with
//@sub impl\s*<\s*T\s*>\s*RangeMap\s*<\s*T\s*> => impl RangeMap
//@sub \bRangeMap\s*<\s*T\s*> => RangeMap
//@sub \(\s*usize\s*,\s*T\s*\) => (usize, Vector)
//@sub T\s*::\s*Slice\s*<\s*'_\s*> => Vector
//@sub \bReferenceMap\b => RangeMap
//@type crates/tlsn/src/map.rs struct RangeMap
impl Clone for RangeMap { #[verifier::external_body] fn clone(&self) -> (r: RangeMap) ensures r == *self { unimplemented!() } }
pub open spec fn mend(m: Seq<(usize, Vector)>, k: int) -> int { m[k].0 + val(m[k].1).len() }
/// sorted and disjoint
pub open spec fn mwf(m: Seq<(usize, Vector)>) -> bool {
    &&& forall|k: int| 0 <= k < m.len() ==> 0 < val((#[trigger] m[k]).1).len() && mend(m, k) <= usize::MAX
    &&& forall|j: int, k: int| 0 <= j < k < m.len() ==> mend(m, j) <= (#[trigger] m[k]).0 && (#[trigger] m[j]).0 < m[k].0
}
/// one entry for each range
pub open spec fn covers(m: Seq<(usize, Vector)>, rs: Seq<Range<usize>>) -> bool { m.len() == rs.len() && forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).0 == rs[k].start && val(m[k].1).len() == rs[k].end - rs[k].start }
/// the entries hold the bytes of `p` at their positions
pub open spec fn reads(m: Seq<(usize, Vector)>, p: Seq<u8>) -> bool { forall|k: int| 0 <= k < m.len() ==> mend(m, k) <= p.len() && val((#[trigger] m[k]).1) == p.subrange(m[k].0 as int, mend(m, k)) }
/// a range lies within one entry
pub open spec fn within(m: Seq<(usize, Vector)>, g: Range<usize>) -> bool { exists|k: int| 0 <= k < m.len() && (#[trigger] m[k]).0 <= g.start && g.end <= mend(m, k) }
pub open spec fn mrange(m: Seq<(usize, Vector)>, k: int) -> Range<usize> { Range { start: m[k].0, end: mend(m, k) as usize } }
pub proof fn lemma_covers(m: Seq<(usize, Vector)>, rs: Seq<Range<usize>>)
    requires covers(m, rs), canon(rs) ensures mwf(m), forall|k: int| 0 <= k < m.len() ==> mrange(m, k) == #[trigger] rs[k]
{
    assert forall|k: int| 0 <= k < m.len() implies 0 < val((#[trigger] m[k]).1).len() && mend(m, k) <= usize::MAX by { assert(rs[k].start < rs[k].end); }
    assert forall|j: int, k: int| 0 <= j < k < m.len() implies mend(m, j) <= (#[trigger] m[k]).0 && (#[trigger] m[j]).0 < m[k].0 by { assert(rs[j].end < rs[k].start); assert(rs[j].start < rs[j].end); }
    assert forall|k: int| 0 <= k < m.len() implies mrange(m, k) == #[trigger] rs[k] by { assert(m[k].0 == rs[k].start); }
}
/// a range of indices of a set lies within one of its ranges
pub proof fn lemma_inside(sub: Seq<Range<usize>>, rs: Seq<Range<usize>>, g: Range<usize>)
    requires canon(rs), g.start < g.end, forall|i: int| g.start <= i < g.end ==> #[trigger] inr(rs, i)
    ensures exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).start <= g.start && g.end <= rs[k].end
{
    assert(inr(rs, g.start as int));
    let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).start <= g.start < rs[k].end;
    if rs[k].end < g.end {
        assert(inr(rs, rs[k].end as int));
        let l = choose|l: int| 0 <= l < rs.len() && (#[trigger] rs[l]).start <= rs[k].end < rs[l].end;
        if l < k { assert(rs[l].end < rs[k].start); } else if k < l { assert(rs[k].end < rs[l].start); }
        assert(false);
    }
}
pub proof fn lemma_subset(sub: Seq<Range<usize>>, rs: Seq<Range<usize>>, m: Seq<(usize, Vector)>)
    requires canon(rs), canon(sub), covers(m, rs), forall|i: int| #[trigger] inr(sub, i) ==> inr(rs, i)
    ensures forall|k: int| 0 <= k < sub.len() ==> within(m, #[trigger] sub[k])
{
    assert forall|k: int| 0 <= k < sub.len() implies within(m, #[trigger] sub[k]) by {
        let g = sub[k];
        assert forall|i: int| g.start <= i < g.end implies #[trigger] inr(rs, i) by { assert(inr(sub, i)); }
        lemma_inside(sub, rs, g);
        let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).start <= g.start && g.end <= rs[j].end;
        assert(m[j].0 == rs[j].start);
    }
}
#[verifier::external_body]
pub fn vx_bsearch(m: &Vec<(usize, Vector)>, x: usize) -> (r: Result<usize, usize>)
    ensures r is Ok ==> r->Ok_0 < m@.len() && m@[r->Ok_0 as int].0 == x,
        r is Err ==> r->Err_0 <= m@.len() && (mwf(m@) ==> (forall|j: int| 0 <= j < r->Err_0 ==> (#[trigger] m@[j]).0 < x) && (forall|j: int| r->Err_0 <= j < m@.len() ==> (#[trigger] m@[j]).0 > x)),
{ unimplemented!() }
impl Vector {
//@fn crates/tlsn/src/map.rs "Item for Vector<U8>::length" pubfn
    ensures r == val(*self).len(),
//@end
//@fn crates/tlsn/src/map.rs "Item for Vector<U8>::slice" pubfn
    ensures range.start <= range.end <= val(*self).len() ==> r is Some && val(r->0) == val(*self).subrange(range.start as int, range.end as int), r is Some ==> range.start <= range.end <= val(*self).len(),
//@sub Self\s*::\s*Slice\s*<\s*'a\s*> => Vector
//@end
    pub fn vx_into(self) -> (r: Vector) ensures r == self { self }
}
impl RangeMap {
    #[verifier::external_body]
    pub fn default() -> (r: RangeMap) ensures r.map@.len() == 0 { unimplemented!() }
//@fn crates/tlsn/src/map.rs RangeMap::is_empty
    ensures r == (self.map@.len() == 0),
//@end
//@fn crates/tlsn/src/map.rs RangeMap::keys closures=off
    requires mwf(self.map@),
    ensures r@.len() == self.map@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == mrange(self.map@, k), r@ =~= mkeys(self.map@),
//@sub impl\s+Iterator\s*<\s*Item\s*=\s*Range\s*<\s*usize\s*>\s*> => Vec<Range<usize>>
//@subreq (?s)self\s*\.map\s*\.iter\(\)\s*\.map\(\|\((\w+), (\w+)\)\| (.*)\)\s*\}\s*\z =>> let mut vx_o: Vec<Range<usize>> = Vec::new(); let mut vx_i: usize = 0; while vx_i < self.map.len() invariant mwf(self.map@), vx_i <= self.map@.len(), vx_o@.len() == vx_i, forall|k: int| 0 <= k < vx_i ==> #[trigger] vx_o@[k] == mrange(self.map@, k), decreases self.map@.len() - vx_i { let ($1, $2) = (&self.map[vx_i].0, &self.map[vx_i].1); assert(mend(self.map@, vx_i as int) <= usize::MAX) by { assert(val(self.map@[vx_i as int].1).len() > 0); } vx_o.push($3); vx_i = vx_i + 1; } vx_o }
//@end
//@fn crates/tlsn/src/map.rs RangeMap::iter closures=off
    requires mwf(self.map@),
    ensures r@.len() == self.map@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == mrange(self.map@, k) && *r@[k].1 == self.map@[k].1,
//@sub impl\s+Iterator\s*<\s*Item\s*=\s*\(\s*Range\s*<\s*usize\s*>\s*,\s*&\s*T\s*\)\s*> => Vec<(Range<usize>, &Vector)>
//@subreq (?s)self\s*\.map\s*\.iter\(\)\s*\.map\(\|\((\w+), (\w+)\)\| (.*)\)\s*\}\s*\z =>> let mut vx_o: Vec<(Range<usize>, &Vector)> = Vec::new(); let mut vx_i: usize = 0; while vx_i < self.map.len() invariant mwf(self.map@), vx_i <= self.map@.len(), vx_o@.len() == vx_i, forall|k: int| 0 <= k < vx_i ==> (#[trigger] vx_o@[k]).0 == mrange(self.map@, k) && *vx_o@[k].1 == self.map@[k].1, decreases self.map@.len() - vx_i { let ($1, $2) = (&self.map[vx_i].0, &self.map[vx_i].1); assert(mend(self.map@, vx_i as int) <= usize::MAX) by { assert(val(self.map@[vx_i as int].1).len() > 0); } vx_o.push($3); vx_i = vx_i + 1; } vx_o }
//@end
//@sub (?s)(\w+(?:\s*\.\s*\w+)*)\s*\.\s*binary_search_by\(\|\(\w+, _\)\| \w+\.cmp\(&(\w+(?:\.\w+)*)\)\) => vx_bsearch(&$1, $2)
//@fn crates/tlsn/src/map.rs RangeMap::get closures=off
    requires mwf(self.map@),
    ensures
        range.start < range.end && within(self.map@, range) ==> r is Some,
        r is Some ==> range.start < range.end && forall|p: Seq<u8>| #[trigger] reads(self.map@, p) ==> range.end <= p.len() && val(r->0) == p.subrange(range.start as int, range.end as int),
//@end
//@fn crates/tlsn/src/map.rs RangeMap::index closures=off
    requires mwf(self.map@),
    ensures
        (forall|k: int| 0 <= k < idx.ranges().len() ==> within(self.map@, #[trigger] idx.ranges()[k])) ==> r is Some,
        r is Some ==> covers((r->0).map@, idx.ranges()) && forall|p: Seq<u8>| #[trigger] reads(self.map@, p) ==> reads((r->0).map@, p),
//@sub \.into\(\) => .vx_into()
//@sub \bidx\.len\(\) => idx.vx_len()
//@subreq let mut (\w+) = Vec::new\(\); =>> let mut $1: Vec<(usize, Vector)> = Vec::new();
//@begin
    let ghost vx_r = idx.ranges();
    proof { axiom_canon(*idx); }
//@loop 0 for iter=it
    invariant mwf(self.map@), canon(vx_r), it.seq() == vx_r, map@.len() == it.index@,
        forall|k: int| 0 <= k < map@.len() ==> (#[trigger] map@[k]).0 == vx_r[k].start && val(map@[k].1).len() == vx_r[k].end - vx_r[k].start,
        forall|p: Seq<u8>| #[trigger] reads(self.map@, p) ==> reads(map@, p),
//@loopbegin 0
    let ghost vx_g = idx; let ghost vx_m = map@;
    proof { assert(idx == vx_r[it.index@ as int]); }
//@loopend 0
    proof {
        assert(map@.len() == vx_m.len() + 1);
        assert(val(map@.last().1) == val(*item).subrange(vx_g.start - *base, vx_g.end - *base));
        assert forall|p: Seq<u8>| #[trigger] reads(self.map@, p) implies reads(map@, p) by {
            assert(reads(vx_m, p));
            assert forall|k: int| 0 <= k < map@.len() implies mend(map@, k) <= p.len() && val((#[trigger] map@[k]).1) == p.subrange(map@[k].0 as int, mend(map@, k)) by {
                if k < vx_m.len() { assert(map@[k] == vx_m[k]); assert(mend(vx_m, k) == mend(map@, k)); }
                else { assert(self.map@[pos as int].0 == *base); assert(val(map@[k].1) =~= p.subrange(map@[k].0 as int, mend(map@, k))); }
            }
        }
    }
//@end
//@fn crates/tlsn/src/map.rs "FromIterator<(usize, T)> for RangeMap<T>::from_iter" pubfn
    requires forall|k: int| 0 <= k < items@.len() ==> (#[trigger] items@[k]).0 + val(items@[k].1).len() <= usize::MAX && (k + 1 < items@.len() ==> mend(items@, k) <= items@[k + 1].0),
    ensures r.map@ == items@,
//@subreq let mut (\w+) = Vec::new\(\); =>> let mut $1: Vec<(usize, Vector)> = Vec::new();
//@sub (?s)fn\s+from_iter\s*<.*?\(\s*items\s*:\s*I\s*\) => fn from_iter(items: Vec<(usize, Vector)>)
//@loop 0 for iter=it
    invariant it.seq() == items@, map@ == items@.take(it.index@ as int), it.index@ > 0 ==> pos == mend(items@, it.index@ - 1), it.index@ == 0 ==> pos == 0,
        forall|k: int| 0 <= k < items@.len() ==> (#[trigger] items@[k]).0 + val(items@[k].1).len() <= usize::MAX && (k + 1 < items@.len() ==> mend(items@, k) <= items@[k + 1].0),
//@loopbegin 0
    assert((idx, item) == items@[it.index@ as int]);
//@end
}

// ---- crates/tlsn/src/transcript_internal/auth.rs
#[verifier::external_body]
pub struct PlaintextAuthError { x: u8 }
#[verifier::external_body]
pub struct ErrorRepr { x: u8 }
pub enum VxRepr { Vm, OutOfBounds, MissingDecoding, InvalidPlaintext }
impl PlaintextAuthError {
    pub uninterp spec fn why(&self) -> VxRepr;
    #[verifier::external_body] pub fn vm<T>(m: T) -> (r: PlaintextAuthError) ensures r.why() is Vm { unimplemented!() }
    #[verifier::external_body] pub fn vx(m: VxRepr) -> (r: PlaintextAuthError) ensures r.why() == m { unimplemented!() }
}
impl From<VxRepr> for PlaintextAuthError { #[verifier::external_body] fn from(e: VxRepr) -> (r: PlaintextAuthError) { unimplemented!() } }
//@sub \bPlaintextAuthError\s*\( => PlaintextAuthError::vx(
//@sub \bErrorRepr\b => VxRepr
//@sub \(\s*VxRepr\s*::\s*OutOfBounds\s*\.into\(\)\s*\) => (PlaintextAuthError::vx(VxRepr::OutOfBounds))
//@type crates/tlsn/src/transcript_internal/auth.rs struct RecordParams
/// the key stream of the bytes of a record
pub open spec fn nks(key: Seq<u8>, iv: Seq<u8>, nonce: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |j: int| blk(key, iv, nonce, 2 + j / 16)[j % 16]) }
pub open spec fn rec_ks(key: Seq<u8>, iv: Seq<u8>, r: RecordParams) -> Seq<u8> { nks(key, iv, r.explicit_nonce@.take(8), r.len as int) }
pub open spec fn xs(a: Seq<u8>, k: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |j: int| a[j] ^ k[j]) }
pub open spec fn ks(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>) -> Seq<u8> decreases recs.len() { if recs.len() == 0 { seq![] } else { ks(key, iv, recs.drop_last()) + rec_ks(key, iv, recs.last()) } }
pub open spec fn total(recs: Seq<RecordParams>) -> int decreases recs.len() { if recs.len() == 0 { 0 } else { total(recs.drop_last()) + recs.last().len } }
/// records as the protocol has them
pub open spec fn sane(recs: Seq<RecordParams>) -> bool { forall|k: int| 0 <= k < recs.len() ==> (#[trigger] recs[k]).len <= 0xffff_ffff && recs[k].explicit_nonce@.len() >= 8 }
/// what ciphertext bytes decrypt to
pub open spec fn dec(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>, ct: Seq<u8>) -> Seq<u8> { Seq::new(ct.len(), |i: int| ct[i] ^ ks(key, iv, recs)[i]) }
pub proof fn lemma_ks(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>, k: int)
    requires 0 <= k < recs.len()
    ensures ks(key, iv, recs.take(k + 1)) == ks(key, iv, recs.take(k)) + rec_ks(key, iv, recs[k]), total(recs.take(k + 1)) == total(recs.take(k)) + recs[k].len
{ assert(recs.take(k + 1).drop_last() =~= recs.take(k)); }
pub proof fn lemma_ks_len(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>) ensures ks(key, iv, recs).len() == total(recs) decreases recs.len() { if recs.len() > 0 { lemma_ks_len(key, iv, recs.drop_last()); } }
/// earlier records decide earlier bytes
pub proof fn lemma_ks_take(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>, k: int)
    requires 0 <= k <= recs.len()
    ensures ks(key, iv, recs.take(k)).len() == total(recs.take(k)), 0 <= total(recs.take(k)) <= total(recs), ks(key, iv, recs).len() == total(recs), ks(key, iv, recs).take(total(recs.take(k))) == ks(key, iv, recs.take(k))
    decreases recs.len() - k
{
    lemma_ks_len(key, iv, recs.take(k)); lemma_ks_len(key, iv, recs);
    if k == recs.len() { assert(recs.take(k) =~= recs); assert(ks(key, iv, recs).take(total(recs)) =~= ks(key, iv, recs)); }
    else { lemma_ks(key, iv, recs, k); lemma_ks_take(key, iv, recs, k + 1); assert(ks(key, iv, recs).take(total(recs.take(k))) =~= ks(key, iv, recs.take(k + 1)).take(total(recs.take(k)))); assert(ks(key, iv, recs.take(k + 1)).take(total(recs.take(k))) =~= ks(key, iv, recs.take(k))); }
}
pub proof fn lemma_rec(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>, k: int)
    requires 0 <= k < recs.len()
    ensures ks(key, iv, recs).len() == total(recs), 0 <= total(recs.take(k)), total(recs.take(k + 1)) == total(recs.take(k)) + recs[k].len, total(recs.take(k + 1)) <= total(recs),
        ks(key, iv, recs).subrange(total(recs.take(k)), total(recs.take(k + 1))) == rec_ks(key, iv, recs[k])
{
    lemma_ks(key, iv, recs, k); lemma_ks_take(key, iv, recs, k); lemma_ks_take(key, iv, recs, k + 1);
    let (a, b) = (total(recs.take(k)), total(recs.take(k + 1))); let kk = ks(key, iv, recs);
    assert(kk.subrange(a, b) =~= kk.take(b).subrange(a, b));
    assert((ks(key, iv, recs.take(k)) + rec_ks(key, iv, recs[k])).subrange(a, b) =~= rec_ks(key, iv, recs[k]));
}
/// a piece agrees after the key stream is applied iff the bytes do
pub proof fn lemma_piece(kk: Seq<u8>, pt: Seq<u8>, ct: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= kk.len(), b <= pt.len(), b <= ct.len()
    ensures xs(pt.subrange(a, b), kk.subrange(a, b)) == ct.subrange(a, b) <==> forall|i: int| a <= i < b ==> #[trigger] ct[i] == pt[i] ^ kk[i]
{
    let (l, r) = (xs(pt.subrange(a, b), kk.subrange(a, b)), ct.subrange(a, b));
    if l == r { assert forall|i: int| a <= i < b implies #[trigger] ct[i] == pt[i] ^ kk[i] by { assert(r[i - a] == ct[i]); assert(l[i - a] == pt[i] ^ kk[i]); } }
    if forall|i: int| a <= i < b ==> #[trigger] ct[i] == pt[i] ^ kk[i] { assert forall|j: int| 0 <= j < b - a implies l[j] == r[j] by { assert(ct[a + j] == pt[a + j] ^ kk[a + j]); } assert(l =~= r); }
}
/// `Ctr32BE<Aes128>` (external)
#[verifier::external_body]
pub struct VxCtr { x: u8 }
impl VxCtr {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn iv(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn new(key: &[u8; 16], iv: &[u8; 16]) -> (r: VxCtr) ensures r.key() == key@, r.iv() == iv@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn try_seek(&mut self, p: u32) -> (r: Result<(), VxErr>) ensures r is Ok, final(self).key() == old(self).key(), final(self).iv() == old(self).iv(), final(self).pos() == p { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_keystream(&mut self, b: &mut [u8])
        ensures final(b)@.len() == old(b)@.len(), forall|c: u32, i: int| 0 <= i < old(b)@.len() && old(self).iv().skip(12) == #[trigger] be32(c) && c + (old(self).pos() + i) / 16 <= 0xffff_ffff ==>
            #[trigger] final(b)@[i] == old(b)@[i] ^ aes(old(self).key(), old(self).iv().take(12) + be32((c + (old(self).pos() + i) / 16) as u32))[(old(self).pos() + i) % 16]
    { unimplemented!() }
}
//@sub Ctr32BE\s*::\s*<\s*Aes128\s*>\s*::\s*new => VxCtr::new
//@fn crates/tlsn/src/transcript_internal/auth.rs aes_ctr_apply_keystream
    requires explicit_nonce@.len() >= 8, old(input)@.len() <= 0xffff_ffff,
    ensures final(input)@ == xs(old(input)@, nks(key@, iv@, explicit_nonce@.take(8), old(input)@.len() as int)),
//@sub \bkey\.into\(\) => key
//@sub &\s*(\w+)\.into\(\) => &$1
//@before apply_keystream
    proof { assert(full_iv@.skip(12) =~= be32(0)); assert(full_iv@.take(12) =~= iv@ + explicit_nonce@.take(8)); assert(cipher.pos() == 32); }
//@tail
    proof {
        assert forall|j: int| 0 <= j < vx_in.len() implies input@[j] == #[trigger] (vx_in[j] ^ blk(key@, iv@, explicit_nonce@.take(8), 2 + j / 16)[j % 16]) by {
            assert((32 + j) / 16 == 2 + j / 16 && (32 + j) % 16 == j % 16);
            assert(0u32 + (32 + j) / 16 <= 0xffff_ffff);
            assert(iv@ + explicit_nonce@.take(8) + be32((2 + j / 16) as u32) == full_iv@.take(12) + be32((0u32 + (32 + j) / 16) as u32));
        }
        assert(input@ =~= xs(vx_in, nks(key@, iv@, explicit_nonce@.take(8), vx_in.len() as int)));
    }
//@begin
    let ghost vx_in = input@;
//@end

#[verifier::external_body]
pub fn vx_eq(a: &Vec<u8>, b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@fn crates/tlsn/src/transcript_internal/auth.rs verify_plaintext_with_key
    requires sane(records@), total(records@) <= plaintext@.len(), total(records@) <= ciphertext@.len(),
    ensures r is Ok <==> forall|i: int| 0 <= i < total(records@) ==> #[trigger] ciphertext@[i] == plaintext@[i] ^ ks(key@, iv@, records@)[i],
        r is Err ==> r->Err_0.why() is InvalidPlaintext,
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+RecordParams\s*> => &Vec<RecordParams>
//@sub \bin\s+it\s*:\s*records\b => in it: records.iter()
//@sub \b(\w+) != (\w+)\[(\w+)\.\.([^\]]*)\] => !vx_eq(&$1, &$2[$3..$4])
//@sub \b(\w+) == (\w+)\[(\w+)\.\.([^\]]*)\] => vx_eq(&$1, &$2[$3..$4])
//@loop 0 for iter=it
    invariant it.seq() == records@.map_values(|x: RecordParams| &x), sane(records@), total(records@) <= plaintext@.len() <= usize::MAX, total(records@) <= ciphertext@.len(), pos == total(records@.take(it.index@ as int)),
        forall|i: int| 0 <= i < pos ==> #[trigger] ciphertext@[i] == plaintext@[i] ^ ks(key@, iv@, records@)[i],
//@loopbegin 0
    let ghost vx_k = it.index@ as int; let ghost vx_K = ks(key@, iv@, records@); let ghost vx_p = pos as int;
    proof {
        assert(*record == records@[vx_k]);
        lemma_rec(key@, iv@, records@, vx_k);
        lemma_piece(vx_K, plaintext@, ciphertext@, vx_p, vx_p + record.len);
    }
//@before aes_ctr_apply_keystream
    proof { assert(text@ =~= plaintext@.subrange(vx_p, vx_p + record.len)); }
//@begin
    hide(ks); hide(total); hide(xs); hide(nks);
    let vx_l = (plaintext.len(), ciphertext.len());
    proof { reveal(ks); reveal(total); assert(records@.take(records@.len() as int) =~= records@); assert(total(records@.take(0)) == 0); lemma_ks_len(key@, iv@, records@); }
//@end
//@fn crates/tlsn/src/transcript_internal/auth.rs alloc_explicit_nonce closures=result
    ensures r is Ok ==> val(r->Ok_0) == explicit_nonce@ && val(r->Ok_0).len() == 8,
//@end
//@sub AES128\s*\.clone\(\) => vx_aes128()
//@fn crates/tlsn/src/transcript_internal/auth.rs alloc_block closures=result
    requires block < 0x7fff_ffff, val(explicit_nonce).len() == 8,
    ensures r is Ok ==> val(r->Ok_0) == blk(aval(key), aval(iv), val(explicit_nonce), 2 + block),
//@begin
    hide(be32);
    let ghost vx_n = block;
//@before build
    proof {
        let a = Seq::<u8>::empty() + aval(key) + aval(iv) + val(explicit_nonce) + aval(ctr);
        assert(a.len() == 32);
        assert(a.take(16) =~= aval(key)); assert(a.skip(16) =~= aval(iv) + val(explicit_nonce) + be32((2 + vx_n) as u32));
    }
//@end

// ---- pieces put one after the other
pub open spec fn cats(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { cats(s.drop_last()) + s.last() } }
pub open spec fn vals(v: Seq<Vector>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| val(v[i])) }
pub open spec fn mvals(m: Seq<(usize, Vector)>) -> Seq<Seq<u8>> { Seq::new(m.len(), |i: int| val(m[i].1)) }
pub open spec fn picks(rs: Seq<Range<usize>>, d: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(rs.len(), |i: int| d.subrange(rs[i].start as int, rs[i].end as int)) }
pub proof fn lemma_cats(s: Seq<Seq<u8>>, k: int) requires 0 <= k < s.len() ensures cats(s.take(k + 1)) == cats(s.take(k)) + s[k] { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_cats_push(s: Seq<Seq<u8>>, x: Seq<u8>) ensures cats(s.push(x)) == cats(s) + x { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_cats_take(s: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= s.len() ensures cats(s.take(k)).len() <= cats(s).len(), cats(s).take(cats(s.take(k)).len() as int) == cats(s.take(k)) decreases s.len() - k
{
    if k == s.len() { assert(s.take(k) =~= s); assert(cats(s).take(cats(s).len() as int) =~= cats(s)); }
    else { lemma_cats(s, k); lemma_cats_take(s, k + 1); let n = cats(s.take(k)).len() as int; assert(cats(s).take(n) =~= cats(s.take(k + 1)).take(n)); assert(cats(s.take(k + 1)).take(n) =~= cats(s.take(k))); }
}
/// piece `k` of pieces of the lengths of the ranges
pub proof fn lemma_cats_piece(s: Seq<Seq<u8>>, rs: Seq<Range<usize>>, k: int)
    requires 0 <= k < s.len(), s.len() == rs.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() == rs[j].end - rs[j].start
    ensures cats(s).subrange(rlen(rs.take(k)), rlen(rs.take(k + 1))) == s[k], 0 <= rlen(rs.take(k)), rlen(rs.take(k + 1)) == rlen(rs.take(k)) + s[k].len(), rlen(rs.take(k + 1)) <= cats(s).len(), cats(s).len() == rlen(rs)
{
    lemma_cats_rlen(s, rs, k); lemma_cats_rlen(s, rs, k + 1); lemma_cats_rlen(s, rs, s.len() as int);
    assert(s.take(s.len() as int) =~= s); assert(rs.take(rs.len() as int) =~= rs);
    lemma_cats(s, k); lemma_cats_take(s, k + 1); lemma_pick_step(rs, seq![], k);
    let (a, b) = (rlen(rs.take(k)), rlen(rs.take(k + 1)));
    assert(cats(s).subrange(a, b) =~= cats(s).take(b).subrange(a, b));
    assert((cats(s.take(k)) + s[k]).subrange(a, b) =~= s[k]);
}
pub proof fn lemma_cats_rlen(s: Seq<Seq<u8>>, rs: Seq<Range<usize>>, k: int)
    requires 0 <= k <= s.len(), s.len() == rs.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).len() == rs[j].end - rs[j].start
    ensures cats(s.take(k)).len() == rlen(rs.take(k)) decreases k
{
    if k > 0 { lemma_cats_rlen(s, rs, k - 1); lemma_cats(s, k - 1); lemma_pick_step(rs, seq![], k - 1); }
}
pub proof fn lemma_pick_cats(rs: Seq<Range<usize>>, d: Seq<u8>) ensures pick(rs, d) == cats(picks(rs, d)) decreases rs.len() {
    if rs.len() > 0 { lemma_pick_cats(rs.drop_last(), d); assert(picks(rs, d).drop_last() =~= picks(rs.drop_last(), d)); }
}
pub open spec fn mkeys(m: Seq<(usize, Vector)>) -> Seq<Range<usize>> { Seq::new(m.len(), |k: int| mrange(m, k)) }

//@sub (?s)Ok\(\s*RangeMap::from_iter\(\s*(\w+)\s*\.iter\(\)\s*\.map\(move \|(\w+)\|\s*\{(\s*let \w+ = (\w+)\s*\.get\(.*)\((\w+\.start), (\w+)\)\s*\}\),?\s*\)\s*,?\s*\) => { let mut vx_out: Vec<(usize, Vector)> = Vec::new(); for $2 in vx_it: $1.iter() invariant vx_mapinv(vx_out@, vx_it.seq(), $1.ranges(), vx_it.index@ as int, pos as int, val($4)), { let ghost vx_g = $2; proof { vx_mapstep(vx_it.seq(), $1.ranges(), vx_it.index@ as int); assert(vx_g == vx_it.seq()[vx_it.index@ as int]); } $3 proof { lemma_mapnext(vx_out@, vx_it.seq(), vx_it.index@ as int, vx_g, $6, val($4)); } vx_out.push(($5, $6)); } proof { lemma_mapdone(vx_out@, $1.ranges(), val($4)); } Ok(RangeMap::from_iter(vx_out)) }
/// entries so far: a piece of `src` for each range
pub open spec fn vx_mapinv(o: Seq<(usize, Vector)>, s: Seq<Range<usize>>, rs: Seq<Range<usize>>, n: int, pos: int, src: Seq<u8>) -> bool {
    &&& s == rs && canon(rs) && 0 <= n <= rs.len() && o.len() == n && pos == rlen(rs.take(n)) && src.len() == rlen(rs) && src.len() <= usize::MAX
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] o[k]).0 == rs[k].start && val(o[k].1) == src.subrange(rlen(rs.take(k)), rlen(rs.take(k + 1))) && val(o[k].1).len() == rs[k].end - rs[k].start
}
pub proof fn vx_mapstep(s: Seq<Range<usize>>, rs: Seq<Range<usize>>, n: int)
    requires s == rs, canon(rs), 0 <= n < rs.len() ensures 0 <= rlen(rs.take(n)), rlen(rs.take(n)) + (rs[n].end - rs[n].start) == rlen(rs.take(n + 1)), rlen(rs.take(n + 1)) <= rlen(rs), rs[n].start < rs[n].end
{ lemma_rlen_take(rs, n); lemma_pick_step(rs, seq![], n); }
pub proof fn lemma_mapnext(o: Seq<(usize, Vector)>, rs: Seq<Range<usize>>, n: int, g: Range<usize>, c: Vector, src: Seq<u8>)
    requires 0 <= n < rs.len(), canon(rs), g == rs[n], val(c) == src.subrange(rlen(rs.take(n)), rlen(rs.take(n + 1))), src.len() == rlen(rs)
    ensures val(c).len() == rs[n].end - rs[n].start
{ lemma_rlen_take(rs, n); lemma_pick_step(rs, seq![], n); }
pub proof fn lemma_mapdone(o: Seq<(usize, Vector)>, rs: Seq<Range<usize>>, src: Seq<u8>)
    requires vx_mapinv(o, rs, rs, rs.len() as int, rlen(rs), src) ensures covers(o, rs), mwf(o), mkeys(o) == rs
{ assert(covers(o, rs)); lemma_covers(o, rs); assert(mkeys(o) =~= rs); }
pub proof fn vx_nomap() ensures forall|m: Seq<(usize, Vector)>| m.len() == 0 ==> #[trigger] mkeys(m) == Seq::<Range<usize>>::empty() { assert forall|m: Seq<(usize, Vector)>| m.len() == 0 implies #[trigger] mkeys(m) == Seq::<Range<usize>>::empty() by { assert(mkeys(m) =~= seq![]); } }
//@fn crates/tlsn/src/transcript_internal/auth.rs alloc_plaintext closures=result
    ensures r is Ok ==> covers(r->Ok_0.map@, ranges.ranges()) && mwf(r->Ok_0.map@) && mkeys(r->Ok_0.map@) == ranges.ranges(),
//@sub \b(range)\.len\(\) => $1.vx_len()
//@begin
    hide(rlen); hide(pick);
    proof { vx_nomap(); if ranges.ranges().len() > 0 { vx_mapstep(ranges.ranges(), ranges.ranges(), 0); } }
    proof { axiom_canon(*ranges); reveal(rlen); assert(ranges.ranges().take(0) =~= seq![]); assert(ranges.ranges().take(ranges.ranges().len() as int) =~= ranges.ranges()); }
//@end

// ---- the key stream of a set of positions
pub struct VxIter { pub v: Vec<Range<usize>>, pub i: usize }
impl VxIter {
    pub fn new(v: Vec<Range<usize>>) -> (r: VxIter) ensures r.v@ == v@, r.i == 0 { VxIter { v, i: 0 } }
    pub fn next(&mut self) -> (r: Option<Range<usize>>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v@ == old(self).v@, old(self).i < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i
    { if self.i < self.v.len() { let r = Range { start: self.v[self.i].start, end: self.v[self.i].end }; self.i = self.i + 1; Some(r) } else { None } }
}
/// the key stream collected so far: of the first `n` ranges, the last of them up to what is still to do
pub open spec fn part(out: Seq<Vector>, kk: Seq<u8>, rs: Seq<Range<usize>>, n: int, cur: Option<Range<usize>>) -> bool {
    match cur {
        Some(c) => 1 <= n && rs[n - 1].start <= c.start < c.end && c.end == rs[n - 1].end && (c.start <= kk.len() ==> cats(vals(out)) == pick(rs.take(n - 1), kk) + kk.subrange(rs[n - 1].start as int, c.start as int)),
        None => cats(vals(out)) == pick(rs.take(n), kk),
    }
}
/// one more piece
pub proof fn lemma_part(out: Seq<Vector>, kk: Seq<u8>, rs: Seq<Range<usize>>, n: int, c: Range<usize>, x: Vector, len: int)
    requires 1 <= n <= rs.len(), part(out, kk, rs, n, Some(c)), 0 < len, c.start + len <= c.end, c.start + len <= kk.len(), val(x) == kk.subrange(c.start as int, c.start + len)
    ensures c.start + len < c.end ==> part(out.push(x), kk, rs, n, Some(Range { start: (c.start + len) as usize, end: c.end })), c.start + len == c.end ==> part(out.push(x), kk, rs, n, None)
{
    assert(vals(out.push(x)) =~= vals(out).push(val(x))); lemma_cats_push(vals(out), val(x));
    let (a, b, e) = (rs[n - 1].start as int, c.start as int, c.start + len);
    assert(kk.subrange(a, b) + kk.subrange(b, e) =~= kk.subrange(a, e));
    assert(pick(rs.take(n - 1), kk) + kk.subrange(a, b) + kk.subrange(b, e) =~= pick(rs.take(n - 1), kk) + (kk.subrange(a, b) + kk.subrange(b, e)));
    lemma_pick_step(rs, kk, n - 1);
}
/// a range is begun
pub proof fn lemma_part0(out: Seq<Vector>, kk: Seq<u8>, rs: Seq<Range<usize>>, n: int)
    requires 0 <= n < rs.len(), part(out, kk, rs, n, None), rs[n].start < rs[n].end
    ensures part(out, kk, rs, n + 1, Some(rs[n]))
{ if rs[n].start <= kk.len() { assert(kk.subrange(rs[n].start as int, rs[n].start as int) =~= seq![]); } assert(pick(rs.take(n), kk) + Seq::<u8>::empty() =~= pick(rs.take(n), kk)); }
/// a piece of a block is a piece of the key stream
pub proof fn lemma_blockpiece(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>, k: int, o: int, len: int, b: Seq<u8>)
    requires 0 <= k < recs.len(), 0 <= o, 0 < len, o + len <= recs[k].len, o % 16 + len <= 16, recs[k].explicit_nonce@.len() == 8, b == blk(key, iv, recs[k].explicit_nonce@, 2 + o / 16)
    ensures b.len() == 16, b.subrange(o % 16, o % 16 + len) == ks(key, iv, recs).subrange(total(recs.take(k)) + o, total(recs.take(k)) + o + len), total(recs.take(k)) + recs[k].len <= total(recs)
{
    lemma_rec(key, iv, recs, k);
    let p = total(recs.take(k)); let kk = ks(key, iv, recs); let rk = rec_ks(key, iv, recs[k]); let nn = recs[k].explicit_nonce@;
    assert(nn.take(8) =~= nn); let vx_l = b.subrange(o % 16, o % 16 + len);
    assert forall|j: int| 0 <= j < len implies #[trigger] vx_l[j] == kk.subrange(p + o, p + o + len)[j] by {
        assert(kk.subrange(p, p + recs[k].len)[o + j] == kk[p + o + j]);
        assert(rk[o + j] == blk(key, iv, nn, 2 + (o + j) / 16)[(o + j) % 16]);
        lemma_divmod(o, j);
    }
    assert(b.subrange(o % 16, o % 16 + len) =~= kk.subrange(p + o, p + o + len));
}
pub proof fn lemma_divmod(o: int, j: int) requires 0 <= o, 0 <= j, o % 16 + j < 16 ensures (o + j) / 16 == o / 16, (o + j) % 16 == o % 16 + j {}
//@fn crates/tlsn/src/transcript_internal/auth.rs alloc_keystream closures=off
    requires sane(records@), 16 * total(records@) <= usize::MAX,
    ensures r is Ok ==> end_of(ranges.ranges()) <= total(records@) && cats(vals(r->Ok_0@)) == pick(ranges.ranges(), ks(aval(key), aval(iv), records@)),
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+RecordParams\s*> => &Vec<RecordParams>
//@sub \bin\s+it\s*:\s*records\b => in it: records.iter()
//@sub let mut (\w+) = ranges\.iter\(\); => let mut $1 = VxIter::new(ranges.iter());
//@sub (\w+)\.take\(\)\s*\.or_else\(\|\| (\w+)\.next\(\)\) => (match $1.take() { Some(vx_x) => Some(vx_x), None => $2.next() })
//@sub let mut pos = 0; => let mut pos: usize = 0;
//@sub let mut current_block = None; => let mut current_block: Option<(usize, Vector)> = None;
//@sub let mut explicit_nonce = None; => let mut explicit_nonce: Option<Vector> = None;
//@subreq (?s)if let (Some\(\(\w+, \w+\)\)) = (\w+\.take\(\))\s*&& (\w+ == \w+)\s*(\{[^{}]*\}) else (\{[^{}]*\}); =>> match $2 { $1 if $3 => $4 _ => $5 };
//@before push
    proof { assert(val(block) == blk(aval(key), aval(iv), record.explicit_nonce@, 2 + (range.start - pos) / 16)); lemma_blockpiece(aval(key), aval(iv), records@, vx_k, range.start - pos, len as int, val(block)); }
//@begin
    hide(ks); hide(total); hide(pick); hide(cats); hide(blk);
    let ghost vx_R = ranges.ranges(); let ghost vx_K = ks(aval(key), aval(iv), records@);
    proof { axiom_canon(*ranges); reveal(pick); reveal(total); reveal(cats); assert(vals(Seq::<Vector>::empty()) =~= Seq::<Seq<u8>>::empty()); assert(records@.take(0) =~= seq![]); assert(vx_R.take(0) =~= seq![]); assert(vx_R.take(vx_R.len() as int) =~= vx_R); lemma_ks_len(aval(key), aval(iv), records@); }
//@loop 0 for iter=it
    invariant it.seq() == records@.map_values(|x: RecordParams| &x), sane(records@), 16 * total(records@) <= usize::MAX, pos == total(records@.take(it.index@ as int)), pos <= total(records@),
        vx_K == ks(aval(key), aval(iv), records@), vx_K.len() == total(records@), vx_R == ranges.ranges(), canon(vx_R), range_iter.v@ == vx_R, range_iter.i <= vx_R.len(),
        part(keystream@, vx_K, vx_R, range_iter.i as int, current_range), current_range is Some ==> current_range->0.start >= pos, range_iter.i < vx_R.len() ==> vx_R[range_iter.i as int].start >= pos,
        current_range is None ==> range_iter.i == 0,
//@loopbegin 0
    let ghost vx_k = it.index@ as int;
    proof { assert(*record == records@[vx_k]); lemma_rec(aval(key), aval(iv), records@, vx_k); }
//@loop 1 loop
    invariant_except_break
        explicit_nonce is Some ==> val(explicit_nonce->0) == record.explicit_nonce@ && record.explicit_nonce@.len() == 8,
        current_block is Some ==> record.explicit_nonce@.len() == 8 && val((current_block->0).1) == blk(aval(key), aval(iv), record.explicit_nonce@, 2 + (current_block->0).0),
        current_range is Some ==> current_range->0.start >= pos,
        range_iter.i < vx_R.len() ==> vx_R[range_iter.i as int].start >= pos,
    invariant
        0 <= vx_k < records@.len(), *record == records@[vx_k], sane(records@), 16 * total(records@) <= usize::MAX, pos == total(records@.take(vx_k)), pos + record.len <= total(records@), total(records@.take(vx_k + 1)) == pos + record.len,
        vx_K == ks(aval(key), aval(iv), records@), vx_K.len() == total(records@), vx_R == ranges.ranges(), canon(vx_R), range_iter.v@ == vx_R, range_iter.i <= vx_R.len(),
        part(keystream@, vx_K, vx_R, range_iter.i as int, current_range), current_range is None && range_iter.i > 0 ==> vx_R[range_iter.i - 1].end <= pos + record.len,
    ensures
        current_range is Some && current_range->0.start >= pos + record.len && (range_iter.i < vx_R.len() ==> vx_R[range_iter.i as int].start >= pos + record.len),
    decreases vx_R.len() - range_iter.i, if current_range is Some { current_range->0.end - current_range->0.start + 1 } else { 0 },
//@loopbegin 1
    let ghost vx_o = keystream@;
    proof { if current_range is None && range_iter.i < vx_R.len() { lemma_part0(vx_o, vx_K, vx_R, range_iter.i as int); } }
//@loopend 1
    proof { lemma_part(vx_o, vx_K, vx_R, range_iter.i as int, range, keystream@.last(), len as int); assert(keystream@ =~= vx_o.push(keystream@.last())); }
//@end

#[verifier::external_body]
pub fn vx_set(v: Vec<Range<usize>>) -> (r: RangeSet<usize>) ensures canon(v@) ==> r.ranges() == v@ { unimplemented!() }
/// the pieces of the ciphertext are the plaintext under the key stream
pub open spec fn enc(o: Seq<(usize, Vector)>, pm: Seq<(usize, Vector)>, kk: Seq<u8>) -> bool { o.len() == pm.len() && forall|k: int| 0 <= k < o.len() ==> val((#[trigger] o[k]).1) == xs(val(pm[k].1), kk.subrange(pm[k].0 as int, mend(pm, k))) }
pub proof fn lemma_ct(o: Seq<(usize, Vector)>, pm: Seq<(usize, Vector)>, rs: Seq<Range<usize>>, kk: Seq<u8>, c: Seq<u8>, a: Seq<u8>)
    requires mkeys(pm) == rs, canon(rs), mwf(pm), vx_mapinv(o, rs, rs, rs.len() as int, rlen(rs), c), forall|i: int| 0 <= i < c.len() ==> c[i] == a[i] ^ a[c.len() + i], a == cats(mvals(pm)) + pick(rs, kk), end_of(rs) <= kk.len()
    ensures enc(o, pm, kk), covers(o, rs), mwf(o)
{
    lemma_mapdone(o, rs, c); lemma_end(rs, kk.len() as int); lemma_pick_cats(rs, kk);
    let (p, q) = (mvals(pm), picks(rs, kk));
    assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]).len() == rs[j].end - rs[j].start by { assert(rs[j] == mrange(pm, j)); assert(val(pm[j].1).len() > 0); }
    assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).len() == rs[j].end - rs[j].start by { assert(rs[j].end <= kk.len()); }
    assert forall|k: int| 0 <= k < o.len() implies val((#[trigger] o[k]).1) == xs(val(pm[k].1), kk.subrange(pm[k].0 as int, mend(pm, k))) by {
        lemma_cats_piece(p, rs, k); lemma_cats_piece(q, rs, k);
        assert(rs[k] == mrange(pm, k)); assert(val(pm[k].1).len() > 0);
        let (x, y) = (rlen(rs.take(k)), rlen(rs.take(k + 1)));
        let l = c.subrange(x, y); let r = xs(val(pm[k].1), kk.subrange(pm[k].0 as int, mend(pm, k)));
        assert forall|j: int| 0 <= j < y - x implies l[j] == r[j] by {
            assert(c[x + j] == a[x + j] ^ a[c.len() + (x + j)]);
            assert(cats(p).subrange(x, y)[j] == cats(p)[x + j]); assert(cats(q).subrange(x, y)[j] == cats(q)[x + j]);
        }
        assert(l =~= r);
    }
}
//@fn crates/tlsn/src/transcript_internal/auth.rs alloc_ciphertext closures=result
    requires sane(records@), 16 * total(records@) <= usize::MAX, mwf(plaintext.map@), canon(mkeys(plaintext.map@)),
    ensures r is Ok ==> covers(r->Ok_0.map@, mkeys(plaintext.map@)) && mwf(r->Ok_0.map@) && enc(r->Ok_0.map@, plaintext.map@, ks(aval(key), aval(iv), records@)) && end_of(mkeys(plaintext.map@)) <= total(records@),
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+RecordParams\s*> => &Vec<RecordParams>
//@sub RangeSet\s*::\s*from\((\w+)\.keys\(\)\s*\.collect\s*::\s*<\s*Vec\s*<\s*_\s*>\s*>\(\)\) => vx_set($1.keys())
//@sub Arc\s*::\s*new\((xor\([^()]*\([^()]*\)[^()]*\))\) => $1
//@sub \b(range)\.len\(\) => $1.vx_len()
//@begin
    hide(ks); hide(total); hide(rlen); hide(pick); hide(cats); hide(enc);
    let ghost vx_m = plaintext.map@; let ghost vx_K = ks(aval(key), aval(iv), records@); let ghost vx_rs = mkeys(vx_m);
    proof {
        vx_nomap(); reveal(enc); reveal(rlen); reveal(cats); lemma_ks_len(aval(key), aval(iv), records@); lemma_ks_take(aval(key), aval(iv), records@, 0);
        assert(vx_rs.take(0) =~= seq![]); assert(vx_rs.take(vx_rs.len() as int) =~= vx_rs); assert(mvals(vx_m).take(0) =~= seq![]); assert(mvals(vx_m).take(vx_m.len() as int) =~= mvals(vx_m));
        assert forall|j: int| 0 <= j < vx_m.len() implies (#[trigger] mvals(vx_m)[j]).len() == vx_rs[j].end - vx_rs[j].start by { assert(val(vx_m[j].1).len() > 0); }
        lemma_cats_rlen(mvals(vx_m), vx_rs, vx_m.len() as int);
    }
//@after alloc_keystream
    let ghost vx_k = keystream@;
    proof { assert(vals(vx_k).take(0) =~= seq![]); assert(vals(vx_k).take(vx_k.len() as int) =~= vals(vx_k)); lemma_end(vx_rs, total(records@)); lemma_pick_len(vx_rs, vx_K); lemma_full(vx_rs, total(records@)); }
//@loop 0 for iter=it0
    invariant it0.seq().len() == vx_m.len(), forall|k: int| 0 <= k < vx_m.len() ==> *(#[trigger] it0.seq()[k]).1 == vx_m[k].1, builder.circ() == Circ::Xor(8 * rlen(vx_rs)), builder.args() == cats(mvals(vx_m).take(it0.index@ as int)),
//@loopend 0
    proof { lemma_cats(mvals(vx_m), it0.index@ as int); }
//@loop 1 for iter=it1
    invariant it1.seq() == vx_k, builder.circ() == Circ::Xor(8 * rlen(vx_rs)), builder.args() == cats(mvals(vx_m)) + cats(vals(vx_k).take(it1.index@ as int)),
//@loopend 1
    proof { lemma_cats(vals(vx_k), it1.index@ as int); }
//@tail
    proof {
        let a = cats(mvals(vx_m)) + pick(vx_rs, vx_K);
        assert(val(ciphertext).len() == rlen(vx_rs));
        lemma_ct(__r->Ok_0.map@, vx_m, vx_rs, vx_K, val(ciphertext), a);
    }
//@end

// ---- the plaintext of a direction
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@type crates/core/src/transcript/tls.rs enum ContentType
//@derives crates/core/src/transcript/tls.rs ContentType PartialEq,Eq
//@type crates/core/src/transcript/tls.rs struct Record
/// the key stream and the length of records
pub open spec fn rks(key: Seq<u8>, iv: Seq<u8>, recs: Seq<Record>) -> Seq<u8> decreases recs.len() { if recs.len() == 0 { seq![] } else { rks(key, iv, recs.drop_last()) + nks(key, iv, recs.last().explicit_nonce@.take(8), recs.last().ciphertext@.len() as int) } }
pub open spec fn rct(recs: Seq<Record>) -> Seq<u8> decreases recs.len() { if recs.len() == 0 { seq![] } else { rct(recs.drop_last()) + recs.last().ciphertext@ } }
/// what the ciphertext of the records decrypts to
pub open spec fn decrypted(key: Seq<u8>, iv: Seq<u8>, recs: Seq<Record>) -> Seq<u8> { xs(rct(recs), rks(key, iv, recs)) }
pub open spec fn rsane(recs: Seq<Record>) -> bool { 16 * rct(recs).len() <= usize::MAX && forall|k: int| 0 <= k < recs.len() ==> (#[trigger] recs[k]).ciphertext@.len() <= 0xffff_ffff && recs[k].explicit_nonce@.len() >= 8 }
pub open spec fn pars(p: Seq<RecordParams>, recs: Seq<Record>) -> bool { p.len() == recs.len() && forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).explicit_nonce@ == recs[k].explicit_nonce@ && p[k].len == recs[k].ciphertext@.len() }
pub open spec fn derefs(v: Seq<&Record>) -> Seq<Record> { Seq::new(v.len(), |i: int| *v[i]) }
pub proof fn lemma_pars(p: Seq<RecordParams>, recs: Seq<Record>, key: Seq<u8>, iv: Seq<u8>)
    requires pars(p, recs) ensures ks(key, iv, p) == rks(key, iv, recs), total(p) == rct(recs).len(), rsane(recs) ==> sane(p) decreases p.len()
{
    if p.len() > 0 { lemma_pars(p.drop_last(), recs.drop_last(), key, iv); assert(p.last() == p[p.len() - 1]); }
    if rsane(recs) { assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).len <= 0xffff_ffff && p[k].explicit_nonce@.len() >= 8 by { assert(recs[k].explicit_nonce@.len() >= 8); } }
}
impl RecordParams {
//@fn crates/tlsn/src/transcript_internal/auth.rs RecordParams::from_iter closures=off
    ensures pars(r@, derefs(records@)),
//@sub (?s)fn\s+from_iter\s*<\s*'a\s*>\s*\(\s*records\s*:.*?\) => fn from_iter<'a>(records: Vec<&'a Record>)
//@sub impl\s+Iterator\s*<\s*Item\s*=\s*Self\s*> => Vec<RecordParams>
//@subreq (?s)(\w+)\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| (Self \{.*\})\)\s*\}\s*\z =>> let mut vx_o: Vec<RecordParams> = Vec::new(); for $2 in vx_it: $1.into_iter() invariant vx_it.seq() == records@, vx_it.index@ == vx_o@.len(), forall|k: int| 0 <= k < vx_o@.len() ==> (#[trigger] vx_o@[k]).explicit_nonce@ == records@[k].explicit_nonce@ && vx_o@[k].len == records@[k].ciphertext@.len(), { vx_o.push($3); } vx_o }
//@end
}
//@type crates/tlsn/src/transcript_internal/auth.rs struct PlaintextProof
//@type crates/tlsn/src/transcript_internal/auth.rs enum ProofInner
/// the key opens the ciphertext to the plaintext
pub open spec fn opens(key: Seq<u8>, iv: Seq<u8>, recs: Seq<RecordParams>, pt: Seq<u8>, ct: Seq<u8>) -> bool { forall|i: int| 0 <= i < total(recs) ==> #[trigger] ct[i] == pt[i] ^ ks(key, iv, recs)[i] }
/// the opened values are the ciphertext
pub open spec fn tells(c: Seq<(&[u8], FutV)>) -> bool { forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).0@ == c[k].1.v() }
impl<'a> PlaintextProof<'a> {
    pub open spec fn wf(self) -> bool { match self.0 { ProofInner::WithKey { key, iv, records, plaintext, ciphertext } => sane(records@) && total(records@) <= plaintext@.len() && total(records@) <= ciphertext@.len(), _ => true } }
    pub open spec fn pairs(self) -> Seq<(&'a [u8], FutV)> { match self.0 { ProofInner::WithZk { ciphertexts } => ciphertexts@, _ => Seq::empty() } }
    /// what is known once the proof is verified
    pub open spec fn claims(self) -> bool {
        match self.0 {
            ProofInner::WithKey { key, iv, records, plaintext, ciphertext } => opens(key.v(), iv.v(), records@, plaintext@, ciphertext@),
            ProofInner::WithZk { ciphertexts } => tells(ciphertexts@),
        }
    }
//@fn crates/tlsn/src/transcript_internal/auth.rs PlaintextProof::verify closures=result
    requires self.wf(),
    ensures r is Ok ==> self.claims(),
//@sub (\w+) != (\w+) \{ => !vx_eq(&$1, $2) {
//@sub (\w+) == (\w+) \{ => vx_eq(&$1, $2) {
//@loop 0 for iter=it
    invariant it.seq() == vx_c, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] vx_c[k]).0@ == vx_c[k].1.v(),
//@begin
    let ghost vx_c = self.pairs();
//@end
}

#[verifier::external_body]
pub fn vx_sub<'a>(s: &'a [u8], g: Range<usize>) -> (r: &'a [u8]) requires g.start <= g.end <= s@.len() ensures r@ == s@.subrange(g.start as int, g.end as int) { unimplemented!() }
/// whether a set is a range (nothing is said when the range is empty)
#[verifier::external_body]
pub fn vx_is_range(s: &RangeSet<usize>, g: Range<usize>) -> (r: bool) ensures g.start < g.end ==> (r <==> s.ranges() =~= seq![g]) { unimplemented!() }
#[verifier::external_body]
pub fn vx_union(a: &RangeSet<usize>, b: &RangeSet<usize>) -> (r: Vec<Range<usize>>) ensures canon(r@), forall|i: int| #[trigger] inr(r@, i) <==> inr(a.ranges(), i) || inr(b.ranges(), i) { unimplemented!() }
pub open spec fn subset(a: Seq<Range<usize>>, b: Seq<Range<usize>>) -> bool { forall|i: int| #[trigger] inr(a, i) ==> inr(b, i) }
/// the bytes at the positions are the same
pub open spec fn agree(rs: Seq<Range<usize>>, a: Seq<u8>, b: Seq<u8>) -> bool { forall|i: int| #[trigger] inr(rs, i) ==> 0 <= i < a.len() && i < b.len() && a[i] == b[i] }
pub proof fn lemma_xor(a: u8, k: u8) ensures (a ^ k) ^ k == a { assert((a ^ k) ^ k == a) by (bit_vector); }
/// plaintext that encrypts to the ciphertext is the decrypted ciphertext
pub proof fn lemma_all(pt: Seq<u8>, ct: Seq<u8>, kk: Seq<u8>)
    requires pt.len() == ct.len() == kk.len(), forall|i: int| 0 <= i < ct.len() ==> #[trigger] ct[i] == pt[i] ^ kk[i]
    ensures pt == xs(ct, kk)
{
    assert forall|i: int| 0 <= i < ct.len() implies pt[i] == #[trigger] xs(ct, kk)[i] by { lemma_xor(pt[i], kk[i]); assert(ct[i] == pt[i] ^ kk[i]); }
    assert(pt =~= xs(ct, kk));
}
/// entries that encrypt to the ciphertext at their positions hold the decrypted bytes
pub proof fn lemma_reads(pm: Seq<(usize, Vector)>, cm: Seq<(usize, Vector)>, ct: Seq<u8>, kk: Seq<u8>)
    requires mwf(pm), enc(cm, pm, kk), ct.len() == kk.len(), forall|k: int| 0 <= k < pm.len() ==> mend(pm, k) <= ct.len(), forall|k: int| 0 <= k < pm.len() ==> val((#[trigger] cm[k]).1) == ct.subrange(pm[k].0 as int, mend(pm, k))
    ensures reads(pm, xs(ct, kk))
{
    assert forall|k: int| 0 <= k < pm.len() implies mend(pm, k) <= ct.len() && val((#[trigger] pm[k]).1) == xs(ct, kk).subrange(pm[k].0 as int, mend(pm, k)) by {
        let (a, b) = (pm[k].0 as int, mend(pm, k)); let p = val(pm[k].1);
        assert(mend(pm, k) <= ct.len());
        assert(val(cm[k].1) == xs(p, kk.subrange(a, b)));
        lemma_all(p, ct.subrange(a, b), kk.subrange(a, b));
        assert(xs(ct.subrange(a, b), kk.subrange(a, b)) =~= xs(ct, kk).subrange(a, b));
    }
}
pub proof fn lemma_agree(m: Seq<(usize, Vector)>, rs: Seq<Range<usize>>, pt: Seq<u8>, d: Seq<u8>)
    requires covers(m, rs), canon(rs), reads(m, d), reads(m, pt) ensures agree(rs, pt, d)
{
    assert forall|i: int| #[trigger] inr(rs, i) implies 0 <= i < pt.len() && i < d.len() && pt[i] == d[i] by {
        let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).start <= i < rs[k].end;
        assert(m[k].0 == rs[k].start); let (a, b) = (m[k].0 as int, mend(m, k));
        assert(val(m[k].1) == pt.subrange(a, b)); assert(val(m[k].1) == d.subrange(a, b));
        assert(pt.subrange(a, b)[i - a] == d.subrange(a, b)[i - a]);
    }
}
pub proof fn lemma_bound(rs: Seq<Range<usize>>, m: Seq<(usize, Vector)>, n: int)
    requires covers(m, rs), canon(rs), end_of(rs) <= n ensures forall|k: int| 0 <= k < m.len() ==> mend(m, k) <= n, bounded(rs, n)
{ lemma_end(rs, n); assert forall|k: int| 0 <= k < m.len() implies mend(m, k) <= n by { assert(m[k].0 == rs[k].start); assert(rs[k].end <= n); } }
pub proof fn lemma_pars_len(recs: Seq<Record>, key: Seq<u8>, iv: Seq<u8>) ensures rks(key, iv, recs).len() == rct(recs).len() decreases recs.len() { if recs.len() > 0 { lemma_pars_len(recs.drop_last(), key, iv); } }
/// everything revealed: the key opens the records to the plaintext
pub proof fn vx_done0(m: Seq<(usize, Vector)>, pt: Seq<u8>, ct: Seq<u8>, kk: Seq<u8>, rv: Seq<Range<usize>>, n: int, kv: Seq<u8>)
    requires kv == kk, n == ct.len(), pt.len() == ct.len() == kk.len(), forall|i: int| 0 <= i < n ==> #[trigger] ct[i] == pt[i] ^ kv[i], canon(rv), end_of(rv) <= pt.len(),
        forall|k: int| 0 <= k < m.len() ==> mend(m, k) <= pt.len() && val((#[trigger] m[k]).1) == pt.subrange(m[k].0 as int, mend(m, k))
    ensures reads(m, xs(ct, kk)), agree(rv, pt, xs(ct, kk))
{ lemma_all(pt, ct, kk); lemma_fits(rv, pt.len() as int); }
//@sub \breveal == \((0\.\.\w+\.len\(\))\) => vx_is_range(reveal, $1)
//@sub \b(\w+)\.union\((\w+)\)\.into_set\(\) => vx_union($1, $2).into_set()
//@sub RecordParams\s*::\s*from_iter\((\w+)\)\s*\.collect\s*::\s*<\s*Vec\s*<\s*_\s*>\s*>\(\) => RecordParams::from_iter($1)
//@fn crates/tlsn/src/transcript_internal/auth.rs verify_plaintext closures=result
    requires rsane(derefs(records@)), plaintext@.len() == ciphertext@.len(), ciphertext@ == rct(derefs(records@)), end_of(reveal.ranges()) <= plaintext@.len(), end_of(commit.ranges()) <= plaintext@.len(),
    ensures r is Ok ==> ({ let (refs, proof) = r->Ok_0; let d = decrypted(aval(key), aval(iv), derefs(records@));
        mwf(refs.map@) && canon(mkeys(refs.map@)) && subset(commit.ranges(), mkeys(refs.map@)) && proof.wf() && (proof.claims() ==> reads(refs.map@, d) && agree(reveal.ranges(), plaintext@, d)) }),
//@sub impl\s+IntoIterator\s*<\s*Item\s*=\s*&\s*'a\s+Record\s*> => Vec<&'a Record>
//@sub &\s*(\w+)\[range\] => vx_sub($1, range)
//@sub \b(\w+)\[range\] => vx_sub($1, range)
//@begin
    hide(opens); hide(tells); hide(ks); hide(total); hide(rks); hide(rct); hide(enc); hide(xs); hide(canon); hide(covers); hide(mwf); hide(within); hide(reads); hide(agree); hide(mkeys); hide(sane); hide(rsane); hide(end_of);
    let ghost vx_recs = derefs(records@); let ghost vx_ct = rct(vx_recs); let ghost vx_K = rks(aval(key), aval(iv), vx_recs); let ghost vx_D = xs(vx_ct, vx_K);
    proof { axiom_canon(*reveal); axiom_canon(*commit); lemma_pars_len(vx_recs, aval(key), aval(iv)); }
//@sub let mut ciphertexts = Vec::new\(\); => let mut ciphertexts: Vec<(&'a [u8], FutV)> = Vec::new();
//@after alloc_plaintext
    let ghost vx_m = plaintext_refs.map@; let ghost vx_A = alloc_ranges.ranges();
    proof { axiom_canon(alloc_ranges); assert(subset(commit.ranges(), vx_A)); assert(!is_reveal_all ==> subset(reveal.ranges(), vx_A)); }
//@after from_iter
    let ghost vx_p = records@;
    proof { lemma_pars(vx_p, vx_recs, aval(key), aval(iv)); assert(16 * total(vx_p) <= usize::MAX && sane(vx_p)) by { reveal(rsane); } }
//@loop 0 for iter=it0
    invariant it0.seq().len() == vx_m.len(), forall|k: int| 0 <= k < vx_m.len() ==> (#[trigger] it0.seq()[k]).0 == mrange(vx_m, k) && *it0.seq()[k].1 == vx_m[k].1,
        forall|k: int| 0 <= k < vx_m.len() ==> mend(vx_m, k) <= plaintext@.len(), forall|k: int| 0 <= k < it0.index@ ==> val((#[trigger] vx_m[k]).1) == plaintext@.subrange(vx_m[k].0 as int, mend(vx_m, k)), mwf(vx_m),
//@sub (?s)for (\(\w+, \w+\)) in it0: => proof { lemma_bound(vx_A, vx_m, plaintext@.len() as int); } for $1 in it0:
//@loopbegin 0
    proof { reveal(mwf); assert(val(vx_m[it0.index@ as int].1).len() > 0); }
//@before PlaintextProof
    proof {
        if opens(key.v(), iv.v(), vx_p, plaintext@, ciphertext@) { reveal(opens); vx_done0(vx_m, plaintext@, vx_ct, vx_K, reveal.ranges(), total(vx_p), ks(key.v(), iv.v(), vx_p)); }
    }
//@loop 1 for iter=it1
    invariant true,
//@sub (?s)for (\(\w+, \w+\)) in it1: (\w+\s*\.index\(&(\w+)\)\s*\.expect\([^()]*\))\s*\.iter\(\) => proof { axiom_canon($3); lemma_subset($3.ranges(), vx_A, vx_m); } let vx_ix1 = $2; proof { lemma_covers(vx_ix1.map@, $3.ranges()); } for $1 in it1: vx_ix1.iter()
//@loop 2 for iter=it2
    invariant it2.seq().len() == vx_ix2.map@.len(), forall|k: int| 0 <= k < vx_ix2.map@.len() ==> (#[trigger] it2.seq()[k]).0 == mrange(vx_ix2.map@, k) && *it2.seq()[k].1 == vx_ix2.map@[k].1,
        forall|k: int| 0 <= k < vx_ix2.map@.len() ==> mend(vx_ix2.map@, k) <= plaintext@.len(), forall|k: int| 0 <= k < it2.index@ ==> val((#[trigger] vx_ix2.map@[k]).1) == plaintext@.subrange(vx_ix2.map@[k].0 as int, mend(vx_ix2.map@, k)), mwf(vx_ix2.map@),
//@sub (?s)for (\(\w+, \w+\)) in it2: (\w+\s*\.index\((\w+)\)\s*\.expect\([^()]*\))\s*\.iter\(\) => proof { lemma_subset($3.ranges(), vx_A, vx_m); } let vx_ix2 = $2; proof { lemma_covers(vx_ix2.map@, $3.ranges()); lemma_bound($3.ranges(), vx_ix2.map@, plaintext@.len() as int); } for $1 in it2: vx_ix2.iter()
//@loopbegin 2
    proof { reveal(mwf); assert(val(vx_ix2.map@[it2.index@ as int].1).len() > 0); }
//@loop 3 for iter=it3
    invariant true,
//@after alloc_ciphertext
    let ghost vx_c = ciphertext_map.map@;
    proof { lemma_bound(vx_A, vx_c, ciphertext@.len() as int); lemma_bound(vx_A, vx_m, ciphertext@.len() as int); assert(reads(vx_ix2.map@, plaintext@)) by { reveal(reads); } }
//@loop 4 for iter=it4
    invariant it4.seq().len() == vx_c.len(), forall|k: int| 0 <= k < vx_c.len() ==> (#[trigger] it4.seq()[k]).0 == mrange(vx_c, k) && *it4.seq()[k].1 == vx_c[k].1,
        forall|k: int| 0 <= k < vx_c.len() ==> mend(vx_c, k) <= ciphertext@.len(), mwf(vx_c), ciphertexts@.len() == it4.index@,
        forall|k: int| 0 <= k < it4.index@ ==> (#[trigger] ciphertexts@[k]).0@ == ciphertext@.subrange(vx_c[k].0 as int, mend(vx_c, k)) && ciphertexts@[k].1.v() == val(vx_c[k].1),
//@loopbegin 4
    proof { reveal(mwf); assert(val(vx_c[it4.index@ as int].1).len() > 0); }
//@before PlaintextProof 1
    proof {
        if tells(ciphertexts@) { reveal(tells);
            assert forall|k: int| 0 <= k < vx_m.len() implies val((#[trigger] vx_c[k]).1) == ciphertext@.subrange(vx_m[k].0 as int, mend(vx_m, k)) by { reveal(covers); assert(ciphertexts@[k].0@ == ciphertexts@[k].1.v()); assert(vx_c[k].0 == vx_A[k].start && vx_m[k].0 == vx_A[k].start); assert(mend(vx_c, k) == mend(vx_m, k)); }
            assert(vx_m.len() == vx_c.len()) by { reveal(covers); }
            lemma_reads(vx_m, vx_c, ciphertext@, vx_K);
            lemma_agree(vx_ix2.map@, reveal.ranges(), plaintext@, vx_D);
        }
    }
//@tail
    proof {
        if __r is Ok {
            let (refs, proof) = __r->Ok_0;
            assert(refs.map@ == vx_m);
            assert(mwf(refs.map@)); assert(canon(mkeys(refs.map@))); assert(subset(commit.ranges(), mkeys(refs.map@)));
            assert(vx_D == decrypted(aval(key), aval(iv), vx_recs));
            assert(proof.wf());
            if proof.claims() { assert(reads(refs.map@, vx_D)); assert(agree(reveal.ranges(), plaintext@, vx_D)); }
        }
    }
//@end
} // verus!
