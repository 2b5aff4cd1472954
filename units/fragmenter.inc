verus! {
/// slice::chunks: consecutive pieces of n bytes, the last one shorter (assumed contract on std)
pub open spec fn chunk_count(len: int, n: int) -> int { if len <= 0 { 0 } else { (len + n - 1) / n } }
pub open spec fn chunk_at(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
#[verifier::external_body]
pub fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0,
    ensures r@.len() == chunk_count(s@.len() as int, n as int),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk_at(s@, n as int, i),
{ s.chunks(n).collect() }

#[verifier::external_body]
pub struct Error0;
pub enum Error { BadMaxFragmentSize, Other(Error0) }
//@type crates/tls-core/src/msgs/fragmenter.rs struct MessageFragmenter
//@type crates/tls-core/src/msgs/fragmenter.rs const MAX_FRAGMENT_LEN
//@type crates/tls-core/src/msgs/fragmenter.rs const PACKET_OVERHEAD
//@type crates/tls-core/src/msgs/fragmenter.rs const MAX_FRAGMENT_SIZE

pub open spec fn concat_all(ps: Seq<Seq<u8>>) -> Seq<u8>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { concat_all(ps.drop_last()) + ps.last() } }

/// the pieces put together are the original, each within the limit, none empty unless the payload is
pub open spec fn pieces_ok(ps: Seq<Seq<u8>>, payload: Seq<u8>, max: int) -> bool {
    concat_all(ps) == payload && forall|i: int| 0 <= i < ps.len() ==> 0 < (#[trigger] ps[i]).len() <= max
}
pub proof fn lemma_chunks_cover(s: Seq<u8>, n: int, k: int, ps: Seq<Seq<u8>>)
    requires n > 0, 0 <= k <= chunk_count(s.len() as int, n), ps.len() == k, forall|i: int| 0 <= i < k ==> ps[i] == chunk_at(s, n, i),
    ensures concat_all(ps) == s.take(if k * n <= s.len() { k * n } else { s.len() as int }),
        forall|i: int| 0 <= i < k ==> 0 < (#[trigger] ps[i]).len() <= n,
    decreases k,
{
    lemma_chunk_arith(s.len() as int, n, k);
    if k > 0 {
        lemma_chunks_cover(s, n, k - 1, ps.drop_last());
        lemma_chunk_arith(s.len() as int, n, k - 1);
        let a = (k - 1) * n;
        assert(k * n == a + n) by (nonlinear_arith) requires a == (k - 1) * n;
        assert(chunk_at(s, n, k - 1) == s.subrange(a, if k * n <= s.len() { k * n } else { s.len() as int }));
        assert(s.take(a) + chunk_at(s, n, k - 1) =~= s.take(if k * n <= s.len() { k * n } else { s.len() as int }));
        assert forall|i: int| 0 <= i < k implies 0 < (#[trigger] ps[i]).len() <= n by {
            if i < k - 1 { assert(ps.drop_last()[i] == ps[i]); }
        }
    } else {
        assert(s.take(0) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_chunk_arith(len: int, n: int, k: int)
    requires n > 0, len >= 0, 0 <= k <= chunk_count(len, n),
    ensures k > 0 ==> (k - 1) * n < len, k < chunk_count(len, n) ==> k * n < len, k == chunk_count(len, n) ==> k * n >= len,
{
    let c = chunk_count(len, n);
    if len > 0 {
        assert(c == (len + n - 1) / n);
        assert(c * n <= len + n - 1 && (c + 1) * n > len + n - 1) by (nonlinear_arith) requires n > 0, len > 0, c == (len + n - 1) / n;
        assert(k > 0 ==> (k - 1) * n < len) by (nonlinear_arith) requires n > 0, k <= c, c * n <= len + n - 1;
        assert(k < c ==> k * n < len) by (nonlinear_arith) requires n > 0, k <= c, c * n <= len + n - 1;
        assert(k == c ==> k * n >= len) by (nonlinear_arith) requires n > 0, (c + 1) * n > len + n - 1;
    } else { assert(k * n == 0) by (nonlinear_arith) requires k == 0; }
}
/// `ps` is the list of chunks of `s`
pub open spec fn is_chunks(ps: Seq<Seq<u8>>, s: Seq<u8>, n: int) -> bool {
    ps.len() == chunk_count(s.len() as int, n) && forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == chunk_at(s, n, i)
}
pub proof fn lemma_pieces(s: Seq<u8>, n: int)
    requires n > 0,
    ensures forall|ps: Seq<Seq<u8>>| is_chunks(ps, s, n) ==> #[trigger] pieces_ok(ps, s, n),
        forall|ps: Seq<Seq<u8>>| ps.len() == 1 && ps[0] == s && 0 < s.len() <= n ==> #[trigger] pieces_ok(ps, s, n),
{
    lemma_chunk_arith(s.len() as int, n, chunk_count(s.len() as int, n));
    assert forall|ps: Seq<Seq<u8>>| is_chunks(ps, s, n) implies #[trigger] pieces_ok(ps, s, n) by {
        lemma_chunks_cover(s, n, ps.len() as int, ps);
        assert(s.take(s.len() as int) =~= s);
    }
    assert forall|ps: Seq<Seq<u8>>| ps.len() == 1 && ps[0] == s && 0 < s.len() <= n implies #[trigger] pieces_ok(ps, s, n) by {
        assert(ps.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(concat_all(ps.drop_last()) =~= Seq::<u8>::empty());
        assert(concat_all(ps) =~= s);
    }
}
pub open spec fn payloads(q: Seq<PlainMessage>) -> Seq<Seq<u8>> { q.map_values(|m: PlainMessage| m.payload.0@) }
pub open spec fn bpayloads<'a>(q: Seq<BorrowedPlainMessage<'a>>) -> Seq<Seq<u8>> { q.map_values(|m: BorrowedPlainMessage<'a>| m.payload@) }

impl MessageFragmenter {
    /// a usable fragmenter: every fragment fits a TLS record
    pub open spec fn wf(&self) -> bool { 27 <= self.max_frag <= 16384 }
//@fn crates/tls-core/src/msgs/fragmenter.rs MessageFragmenter::new ret=res
    ensures match max_fragment_size {
            None => res is Ok && res->Ok_0.max_frag == 16384,
            Some(n) => if 32 <= n <= 16389 { res is Ok && res->Ok_0.max_frag == n - 5 } else { res is Err },
        },
        res is Ok ==> res->Ok_0.wf(),
//@end
//@fn crates/tls-core/src/msgs/fragmenter.rs MessageFragmenter::set_max_fragment_size ret=res
    ensures match new {
            None => res is Ok && final(self).max_frag == 16384,
            Some(n) => if 32 <= n <= 16389 { res is Ok && final(self).max_frag == n - 5 } else { res is Err && final(self).max_frag == old(self).max_frag },
        },
//@end
//@fn crates/tls-core/src/msgs/fragmenter.rs MessageFragmenter::fragment
    requires self.wf(),
    ensures ({
        let fresh = final(out)@.skip(old(out)@.len() as int);
        &&& final(out)@.len() >= old(out)@.len()
        &&& final(out)@.take(old(out)@.len() as int) == old(out)@
        &&& forall|i: int| 0 <= i < fresh.len() ==> (#[trigger] fresh[i]).typ == msg.typ && fresh[i].version == msg.version
        &&& (msg.payload.0@.len() > 0 ==> pieces_ok(payloads(fresh), msg.payload.0@, self.max_frag as int))
        &&& (msg.payload.0@.len() == 0 ==> fresh.len() == 1 && fresh[0].payload.0@.len() == 0)
    }),
//@begin
    let ghost k0 = out@.len() as int;
    let ghost all = msg.payload.0@;
    let ghost n = self.max_frag as int;
    proof { lemma_pieces(all, n); }
//@loop 0 for iter=it
    invariant k0 == old(out)@.len(), n == self.max_frag, n > 0, all == msg.payload.0@,
        out@.len() == k0 + it.index@,
        out@.take(k0) == old(out)@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] out@[k0 + i]).typ == msg.typ && out@[k0 + i].version == msg.version && out@[k0 + i].payload.0@ == chunk_at(all, n, i),
//@tail
    proof {
        let fresh = out@.skip(k0);
        assert forall|i: int| 0 <= i < fresh.len() implies #[trigger] payloads(fresh)[i] == chunk_at(all, n, i) by { assert(fresh[i] == out@[k0 + i]); }
        assert forall|i: int| 0 <= i < fresh.len() implies (#[trigger] fresh[i]).typ == msg.typ && fresh[i].version == msg.version by { assert(fresh[i] == out@[k0 + i]); }
        assert(is_chunks(payloads(fresh), all, n));
    }
//@end
//@fn crates/tls-core/src/msgs/fragmenter.rs MessageFragmenter::fragment_borrow
    requires self.wf(),
    ensures ({
        let fresh = final(out)@.skip(old(out)@.len() as int);
        &&& final(out)@.len() >= old(out)@.len()
        &&& final(out)@.take(old(out)@.len() as int) == old(out)@
        &&& forall|i: int| 0 <= i < fresh.len() ==> (#[trigger] fresh[i]).typ == typ && fresh[i].version == version
        &&& pieces_ok(bpayloads(fresh), payload@, self.max_frag as int)
    }),
//@begin
    let ghost k0 = out@.len() as int;
    let ghost all = payload@;
    let ghost n = self.max_frag as int;
    proof { lemma_pieces(all, n); }
//@loop 0 for iter=it
    invariant k0 == old(out)@.len(), n == self.max_frag, n > 0, all == payload@,
        out@.len() == k0 + it.index@,
        out@.take(k0) == old(out)@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] out@[k0 + i]).typ == typ && out@[k0 + i].version == version && out@[k0 + i].payload@ == chunk_at(all, n, i),
//@tail
    proof {
        let fresh = out@.skip(k0);
        assert forall|i: int| 0 <= i < fresh.len() implies #[trigger] bpayloads(fresh)[i] == chunk_at(all, n, i) by { assert(fresh[i] == out@[k0 + i]); }
        assert forall|i: int| 0 <= i < fresh.len() implies (#[trigger] fresh[i]).typ == typ && fresh[i].version == version by { assert(fresh[i] == out@[k0 + i]); }
        assert(is_chunks(bpayloads(fresh), all, n));
    }
//@end
}
}
