pub mod vxrs {
use vstd::prelude::*; use super::*;
verus! {
// ---- the rangeset crate (external): a set of usize kept as sorted, disjoint, non-empty, non-adjacent ranges (assumed contracts)
pub use std::ops::Range;
pub open spec fn inr(rs: Seq<Range<usize>>, i: int) -> bool { exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).start <= i < rs[k].end }
pub open spec fn canon(rs: Seq<Range<usize>>) -> bool {
    &&& forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).start < rs[k].end
    &&& forall|j: int, k: int| 0 <= j < k < rs.len() ==> (#[trigger] rs[j]).end < (#[trigger] rs[k]).start
}
pub open spec fn bounded(rs: Seq<Range<usize>>, n: int) -> bool { forall|k: int| 0 <= k < rs.len() ==> (#[trigger] rs[k]).end <= n }
/// the number of indices
pub open spec fn rlen(rs: Seq<Range<usize>>) -> int decreases rs.len() {
    if rs.len() == 0 { 0 } else { rlen(rs.drop_last()) + (rs.last().end - rs.last().start) }
}
/// the bytes of `d` at the indices, in order
pub open spec fn pick(rs: Seq<Range<usize>>, d: Seq<u8>) -> Seq<u8> decreases rs.len() {
    if rs.len() == 0 { seq![] } else { pick(rs.drop_last(), d) + d.subrange(rs.last().start as int, rs.last().end as int) }
}
pub open spec fn same_set(a: Seq<Range<usize>>, b: Seq<Range<usize>>) -> bool { forall|i: int| inr(a, i) <==> inr(b, i) }
pub open spec fn end_of(rs: Seq<Range<usize>>) -> int { if rs.len() == 0 { 0 } else { rs.last().end as int } }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RangeSet<T> { v: Vec<Range<T>> }
impl RangeSet<usize> {
    pub uninterp spec fn ranges(self) -> Seq<Range<usize>>;
    pub open spec fn has(self, i: int) -> bool { inr(self.ranges(), i) }
    pub open spec fn fits(self, n: int) -> bool { end_of(self.ranges()) <= n }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<Range<usize>>) ensures r@ == self.ranges() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == rlen(self.ranges()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.ranges().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: Option<usize>) ensures self.ranges().len() == 0 ==> r is None, self.ranges().len() > 0 ==> r == Some(self.ranges().last().end) { unimplemented!() }
    #[verifier::external_body]
    pub fn union_mut<R: VxInto>(&mut self, o: R) ensures forall|i: int| #[trigger] inr(final(self).ranges(), i) <==> inr(old(self).ranges(), i) || o.rv(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference(&self, o: &RangeSet<usize>) -> (r: Vec<Range<usize>>) ensures canon(r@), forall|i: int| #[trigger] inr(r@, i) <==> inr(self.ranges(), i) && !inr(o.ranges(), i) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, o: &RangeSet<usize>) -> (r: bool) ensures r == (forall|i: int| #[trigger] inr(self.ranges(), i) ==> inr(o.ranges(), i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: RangeSet<usize>) ensures r.ranges().len() == 0 { unimplemented!() }
}
/// what can be unioned into a set (`impl IntoRangeIterator<usize>`)
pub trait VxInto { spec fn rv(&self, i: int) -> bool; }
impl VxInto for &RangeSet<usize> { open spec fn rv(&self, i: int) -> bool { inr(self.ranges(), i) } }
impl VxInto for RangeSet<usize> { open spec fn rv(&self, i: int) -> bool { inr(self.ranges(), i) } }
impl VxInto for Range<usize> { open spec fn rv(&self, i: int) -> bool { self.start <= i < self.end } }
impl VxInto for &Range<usize> { open spec fn rv(&self, i: int) -> bool { self.start <= i < self.end } }
impl Clone for RangeSet<usize> {
    #[verifier::external_body]
    fn clone(&self) -> (r: RangeSet<usize>) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for RangeSet<usize> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &RangeSet<usize>) -> bool { same_set(self.ranges(), o.ranges()) }
}
impl PartialEq for RangeSet<usize> {
    #[verifier::external_body]
    fn eq(&self, o: &RangeSet<usize>) -> (r: bool) { unimplemented!() }
}
pub trait VxRangeOps { fn difference(&self, o: &RangeSet<usize>) -> Vec<Range<usize>>; }
impl VxRangeOps for Range<usize> {
    #[verifier::external_body]
    fn difference(&self, o: &RangeSet<usize>) -> (r: Vec<Range<usize>>) ensures canon(r@), forall|i: int| #[trigger] inr(r@, i) <==> self.start <= i < self.end && !inr(o.ranges(), i) { unimplemented!() }
}
pub trait VxIntoSet { fn into_set(self) -> RangeSet<usize>; }
impl VxIntoSet for Vec<Range<usize>> {
    #[verifier::external_body]
    fn into_set(self) -> (r: RangeSet<usize>) ensures canon(self@) ==> r.ranges() == self@ { unimplemented!() }
}
/// rangeset::ops::Index for byte slices
pub trait VxIndexSet { spec fn ixs(&self) -> Seq<u8>; fn index(&self, r: &RangeSet<usize>) -> (o: Vec<&[u8]>)
    requires bounded(r.ranges(), self.ixs().len() as int)
    ensures o@.len() == r.ranges().len(), forall|k: int| 0 <= k < o@.len() ==> (#[trigger] o@[k])@ == self.ixs().subrange(r.ranges()[k].start as int, r.ranges()[k].end as int); }
impl VxIndexSet for Vec<u8> {
    open spec fn ixs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn index(&self, r: &RangeSet<usize>) -> (o: Vec<&[u8]>) { unimplemented!() }
}
impl VxIndexSet for [u8] {
    open spec fn ixs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn index(&self, r: &RangeSet<usize>) -> (o: Vec<&[u8]>) { unimplemented!() }
}
pub broadcast axiom fn axiom_canon(r: RangeSet<usize>) ensures canon(#[trigger] r.ranges());
pub assume_specification<T: Clone> [<Range<T> as Clone>::clone] (r: &Range<T>) -> (o: Range<T>) ensures cloned(r.start, o.start), cloned(r.end, o.end);
/// `range.len()` (ExactSizeIterator; a provided trait method, out of the verifier's reach)
pub trait VxLen { spec fn vxl(&self) -> int; fn vx_len(&self) -> (o: usize) ensures o == self.vxl(); }
impl VxLen for Range<usize> {
    open spec fn vxl(&self) -> int { if self.end >= self.start { self.end - self.start } else { 0 } }
    #[verifier::external_body]
    fn vx_len(&self) -> (o: usize) { self.len() }
}
//@sub \b(r|rng|range|span|seg|subrange)\.len\(\) => $1.vx_len()

// ---- lemmas
pub broadcast proof fn lemma_take_full(rs: Seq<Range<usize>>, k: int) requires k == rs.len() ensures #[trigger] rs.take(k) == rs { assert(rs.take(k) =~= rs); }
pub proof fn lemma_end(rs: Seq<Range<usize>>, n: int)
    requires canon(rs), end_of(rs) <= n
    ensures bounded(rs, n)
{
    assert forall|k: int| 0 <= k < rs.len() implies (#[trigger] rs[k]).end <= n by {
        if k < rs.len() - 1 { assert(rs[k].end < rs[rs.len() - 1].start); }
    }
}
pub proof fn lemma_pick_len(rs: Seq<Range<usize>>, d: Seq<u8>)
    requires canon(rs), bounded(rs, d.len() as int)
    ensures pick(rs, d).len() == rlen(rs)
    decreases rs.len()
{
    if rs.len() > 0 {
        let t = rs.drop_last();
        assert(rs.last() == rs[rs.len() - 1]);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).start < t[k].end && t[k].end <= d.len() by { assert(t[k] == rs[k]); }
        assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).end < (#[trigger] t[k]).start by { assert(t[j] == rs[j] && t[k] == rs[k]); }
        lemma_pick_len(t, d);
    }
}
pub proof fn lemma_pick_agree(rs: Seq<Range<usize>>, a: Seq<u8>, b: Seq<u8>)
    requires canon(rs), bounded(rs, a.len() as int), a.len() == b.len(), forall|i: int| 0 <= i < a.len() && #[trigger] inr(rs, i) ==> a[i] == b[i]
    ensures pick(rs, a) == pick(rs, b)
    decreases rs.len()
{
    if rs.len() > 0 {
        let t = rs.drop_last();
        let l = rs.last();
        assert(l == rs[rs.len() - 1]);
        lemma_canon_take(rs, rs.len() - 1);
        assert(t =~= rs.take(rs.len() - 1));
        assert forall|i: int| 0 <= i < a.len() && #[trigger] inr(t, i) implies a[i] == b[i] by {
            let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).start <= i < t[k].end;
            assert(rs[k] == t[k]);
            assert(inr(rs, i));
        }
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).end <= a.len() by { assert(t[k] == rs[k]); }
        lemma_pick_agree(t, a, b);
        assert forall|j: int| 0 <= j < l.end - l.start implies a.subrange(l.start as int, l.end as int)[j] == b.subrange(l.start as int, l.end as int)[j] by {
            assert(inr(rs, l.start + j));
        }
        assert(a.subrange(l.start as int, l.end as int) =~= b.subrange(l.start as int, l.end as int));
    }
}
pub proof fn lemma_canon_take(rs: Seq<Range<usize>>, k: int)
    requires canon(rs), 0 <= k <= rs.len()
    ensures canon(rs.take(k)), forall|n: int| bounded(rs, n) ==> bounded(rs.take(k), n), forall|n: int| k < rs.len() && n >= rs[k].start ==> bounded(rs.take(k), n),
{
    let t = rs.take(k);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).start < t[i].end by { assert(t[i] == rs[i]); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).end < (#[trigger] t[j]).start by { assert(t[i] == rs[i] && t[j] == rs[j]); }
    assert forall|n: int| k < rs.len() && n >= rs[k].start implies bounded(t, n) by {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).end <= n by { assert(t[i] == rs[i]); assert(rs[i].end < rs[k].start); }
    }
    assert forall|n: int| bounded(rs, n) implies bounded(t, n) by {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).end <= n by { assert(t[i] == rs[i]); }
    }
}
/// membership grows by one range
pub proof fn lemma_inr_step(rs: Seq<Range<usize>>, k: int)
    requires 0 <= k < rs.len()
    ensures forall|i: int| #[trigger] inr(rs.take(k + 1), i) <==> inr(rs.take(k), i) || rs[k].start <= i < rs[k].end,
{
    let (a, b) = (rs.take(k), rs.take(k + 1));
    assert forall|i: int| #[trigger] inr(b, i) <==> inr(a, i) || rs[k].start <= i < rs[k].end by {
        if inr(b, i) {
            let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).start <= i < b[j].end;
            if j < k { assert(a[j] == b[j]); assert(inr(a, i)); } else { assert(b[j] == rs[k]); }
        }
        if inr(a, i) {
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).start <= i < a[j].end;
            assert(a[j] == b[j]);
            assert(inr(b, i));
        }
        if rs[k].start <= i < rs[k].end { assert(b[k] == rs[k]); assert(inr(b, i)); }
    }
}
pub proof fn lemma_pick_step(rs: Seq<Range<usize>>, d: Seq<u8>, k: int)
    requires 0 <= k < rs.len()
    ensures pick(rs.take(k + 1), d) == pick(rs.take(k), d) + d.subrange(rs[k].start as int, rs[k].end as int), rlen(rs.take(k + 1)) == rlen(rs.take(k)) + (rs[k].end - rs[k].start),
{
    let b = rs.take(k + 1);
    assert(b.drop_last() =~= rs.take(k));
    assert(b.last() == rs[k]);
}
pub proof fn lemma_rlen_take(rs: Seq<Range<usize>>, k: int)
    requires canon(rs), 0 <= k <= rs.len()
    ensures 0 <= rlen(rs.take(k)) <= rlen(rs), k < rs.len() ==> rlen(rs.take(k)) + (rs[k].end - rs[k].start) <= rlen(rs)
    decreases rs.len() - k
{
    if k == rs.len() { assert(rs.take(k) =~= rs); lemma_rlen_pos(rs); }
    else {
        lemma_pick_step(rs, seq![], k);
        lemma_rlen_take(rs, k + 1);
        lemma_canon_take(rs, k);
        lemma_rlen_pos(rs.take(k));
    }
}
pub proof fn lemma_rlen_pos(rs: Seq<Range<usize>>)
    requires canon(rs)
    ensures rlen(rs) >= 0
    decreases rs.len()
{
    if rs.len() > 0 {
        lemma_canon_take(rs, rs.len() - 1);
        assert(rs.drop_last() =~= rs.take(rs.len() - 1));
        assert(rs.last() == rs[rs.len() - 1]);
        lemma_rlen_pos(rs.drop_last());
    }
}
/// as many indices as positions, all of them within: every position is one
pub proof fn lemma_full(rs: Seq<Range<usize>>, n: int)
    requires canon(rs), bounded(rs, n), n >= 0
    ensures rlen(rs) <= n, rlen(rs) == n <==> (forall|i: int| 0 <= i < n ==> inr(rs, i))
    decreases rs.len()
{
    if rs.len() == 0 {
        if n > 0 { assert(!inr(rs, 0)); }
    } else {
        let m = rs.len() - 1;
        let l = rs[m];
        let t = rs.take(m);
        lemma_canon_take(rs, m);
        assert(rs.drop_last() =~= t && rs.last() == l);
        lemma_full(t, l.start as int);
        lemma_inr_step(rs, m);
        assert(rs.take(m + 1) =~= rs);
        if rlen(rs) == n {
            assert forall|i: int| 0 <= i < n implies inr(rs, i) by { if i < l.start { assert(inr(t, i)); } }
        }
        if forall|i: int| 0 <= i < n ==> inr(rs, i) {
            if l.end < n { assert(inr(rs, l.end as int)); assert(inr(t, l.end as int)); let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).start <= l.end < t[k].end; assert(t[k].end <= l.start); assert(false); }
            assert forall|i: int| 0 <= i < l.start implies inr(t, i) by { assert(inr(rs, i)); }
        }
    }
}
/// positions are within the bound iff the last range is
pub proof fn lemma_fits(rs: Seq<Range<usize>>, n: int)
    requires canon(rs), n >= 0
    ensures end_of(rs) <= n <==> (forall|i: int| #[trigger] inr(rs, i) ==> i < n), end_of(rs) <= n ==> bounded(rs, n)
{
    if end_of(rs) <= n { lemma_end(rs, n); }
    if rs.len() > 0 && end_of(rs) > n {
        assert(rs.last() == rs[rs.len() - 1]);
        assert(inr(rs, rs.last().end - 1));
    }
}
} // verus!
}
pub use vxrs::*;
