verus! {
// ---- crates/core/src/config/prove.rs
//@type crates/core/src/config/prove.rs struct ProveConfig
//@type crates/core/src/config/prove.rs struct ProveConfigBuilder
//@type crates/core/src/config/prove.rs struct ProveRequest
//@derives crates/core/src/transcript/commit.rs TranscriptCommitConfig Clone
impl Clone for TranscriptCommitConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct ProveConfigError { x: u8 }
impl ProveConfigError { #[verifier::external_body] pub fn vx_out_of_bounds(direction: Direction, actual: usize, len: usize) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_clone_pair(o: &Option<Pair>) -> (r: Option<Pair>) ensures r == *o { unimplemented!() }
pub type Pair = (RangeSet<usize>, RangeSet<usize>);
/// Option::get_or_insert_default, and the two halves of what is inside
#[verifier::external_body]
pub fn vx_pair_mut<'a>(o: &'a mut Option<Pair>) -> (r: (&'a mut RangeSet<usize>, &'a mut RangeSet<usize>))
    ensures ((*old(o)) is Some ==> *r.0 == ((*old(o))->0).0 && *r.1 == ((*old(o))->0).1), ((*old(o)) is None ==> (*r.0).ranges().len() == 0 && (*r.1).ranges().len() == 0),
        *final(o) == Some((*final(r.0), *final(r.1)))
{ unimplemented!() }
/// position `i` of a direction is to be revealed
pub open spec fn shown(o: Option<Pair>, d: Direction, i: int) -> bool { match o { None => false, Some(p) => if d is Sent { inr(p.0.ranges(), i) } else { inr(p.1.ranges(), i) } } }
impl<'a> ProveConfigBuilder<'a> {
    /// nothing outside the transcript is to be revealed
    pub open spec fn wf(&self) -> bool { forall|d: Direction, i: int| #[trigger] shown(self.reveal, d, i) ==> i < self.transcript.dir(d).len() }
    pub open spec fn rest_same(&self, o: &Self) -> bool { self.transcript == o.transcript && self.server_identity == o.server_identity && self.transcript_commit == o.transcript_commit }
    pub open spec fn reveals_more(&self, o: &Self, dir: Direction, rs: Seq<Range<usize>>) -> bool {
        self.rest_same(o) && self.reveal is Some && forall|d: Direction, i: int| #[trigger] shown(self.reveal, d, i) <==> shown(o.reveal, d, i) || (d == dir && inr(rs, i))
    }
    pub open spec fn reveals_all(&self, o: &Self, dir: Direction) -> bool {
        self.rest_same(o) && self.reveal is Some && forall|d: Direction, i: int| #[trigger] shown(self.reveal, d, i) <==> shown(o.reveal, d, i) || (d == dir && 0 <= i < o.transcript.dir(dir).len())
    }
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::new ret=r
    ensures r.wf(), r.transcript == transcript, !r.server_identity, r.reveal is None, r.transcript_commit is None
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::server_identity ret=r
    ensures r.server_identity, r.transcript == old(self).transcript, r.reveal == old(self).reveal, r.transcript_commit == old(self).transcript_commit, *final(self) == *final(r)
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::transcript_commit ret=r
    ensures r.transcript_commit == Some(transcript_commit), r.transcript == old(self).transcript, r.reveal == old(self).reveal, r.server_identity == old(self).server_identity, *final(self) == *final(r)
//@end
//@sub impl\s+IntoRangeIterator\s*<\s*usize\s*> => RangeSet<usize>
//@sub RangeSet\s*::\s*from_range_iter\((\w+)\) => $1
//@sub ProveConfigError\(ErrorRepr\s*::\s*IndexOutOfBounds\s*\{\s*direction,\s*actual:\s*((?:[^{},]|\([^()]*\))*),\s*len:\s*((?:[^{},]|\([^()]*\))*),?\s*\}\) => ProveConfigError::vx_out_of_bounds(direction, $1, $2)
//@sub self\.reveal\.get_or_insert_default\(\) => vx_pair_mut(&mut self.reveal)
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::reveal_inner ret=r
    requires old(self).wf()
    ensures r is Ok <==> all_below(idx.ranges(), old(self).transcript.dir(direction).len() as int), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).reveals_more(&*old(self), direction, idx.ranges()),
//@begin
    proof { lemma_fits(idx.ranges(), self.transcript.dir(direction).len() as int); }
//@tail
    proof { if __r is Ok { let f = *__r->Ok_0; assert(f.reveals_more(&*old(self), direction, idx.ranges())); } }
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::reveal ret=r
    requires old(self).wf()
    ensures r is Ok <==> all_below(ranges.ranges(), old(self).transcript.dir(direction).len() as int), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).reveals_more(&*old(self), direction, ranges.ranges()),
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::reveal_sent ret=r
    requires old(self).wf()
    ensures r is Ok <==> all_below(ranges.ranges(), old(self).transcript.dir(Direction::Sent).len() as int), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).reveals_more(&*old(self), Direction::Sent, ranges.ranges()),
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::reveal_recv ret=r
    requires old(self).wf()
    ensures r is Ok <==> all_below(ranges.ranges(), old(self).transcript.dir(Direction::Received).len() as int), r is Err ==> *final(self) == *old(self),
        r is Ok ==> *final(self) == *final(r->Ok_0) && (r->Ok_0).wf() && (r->Ok_0).reveals_more(&*old(self), Direction::Received, ranges.ranges()),
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::reveal_sent_all ret=r
    requires old(self).wf()
    ensures r is Ok, *final(self) == *final(r->Ok_0), (r->Ok_0).wf(), (r->Ok_0).reveals_all(&*old(self), Direction::Sent),
//@tail
    proof { let f = *__r->Ok_0; assert(f.reveals_all(&*old(self), Direction::Sent)); }
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::reveal_recv_all ret=r
    requires old(self).wf()
    ensures r is Ok, *final(self) == *final(r->Ok_0), (r->Ok_0).wf(), (r->Ok_0).reveals_all(&*old(self), Direction::Received),
//@tail
    proof { let f = *__r->Ok_0; assert(f.reveals_all(&*old(self), Direction::Received)); }
//@end
//@fn crates/core/src/config/prove.rs ProveConfigBuilder::build ret=r
    ensures r is Ok, (r->Ok_0).server_identity == self.server_identity, (r->Ok_0).reveal == self.reveal, (r->Ok_0).transcript_commit == self.transcript_commit
//@end
}
pub open spec fn commit_req(c: Option<TranscriptCommitConfig>, q: Option<TranscriptCommitRequest>) -> bool {
    match (c, q) { (None, None) => true, (Some(c), Some(q)) => q.hash@.len() == c.commits@.len() && forall|k: int| 0 <= k < q.hash@.len() ==> req_of(c.commits@[k], #[trigger] q.hash@[k]), _ => false }
}
impl ProveConfig {
//@fn crates/core/src/config/prove.rs ProveConfig::builder ret=r
    ensures r.wf(), r.transcript == transcript, !r.server_identity, r.reveal is None, r.transcript_commit is None
//@end
//@fn crates/core/src/config/prove.rs ProveConfig::server_identity ret=r
    ensures r == self.server_identity
//@end
//@fn crates/core/src/config/prove.rs ProveConfig::reveal ret=r
    ensures (r is None <==> self.reveal is None), r is Some ==> *r->0 == self.reveal->0
//@end
//@fn crates/core/src/config/prove.rs ProveConfig::transcript_commit ret=r
    ensures (r is None <==> self.transcript_commit is None), r is Some ==> *r->0 == self.transcript_commit->0
//@end
//@sub self\s*\.reveal\s*\.clone\(\) => vx_clone_pair(&self.reveal)
//@fn crates/core/src/config/prove.rs ProveConfig::to_request ret=r closures=option
    ensures r.server_identity == self.server_identity, r.reveal == self.reveal, commit_req(self.transcript_commit, r.transcript_commit)
//@end
}
impl ProveRequest {
//@fn crates/core/src/config/prove.rs ProveRequest::server_identity ret=r
    ensures r == self.server_identity
//@end
//@fn crates/core/src/config/prove.rs ProveRequest::reveal ret=r
    ensures (r is None <==> self.reveal is None), r is Some ==> *r->0 == self.reveal->0
//@end
//@fn crates/core/src/config/prove.rs ProveRequest::transcript_commit ret=r
    ensures (r is None <==> self.transcript_commit is None), r is Some ==> *r->0 == self.transcript_commit->0
//@end
}
//@unsub self\.reveal\.get_or_insert_default\(\)
} // verus!
// ---- crates/core/src/config/tls_commit/mpc.rs
pub mod vxmpc { use vstd::prelude::*; use super::*;
verus! {
//@type crates/core/src/config/tls_commit/mpc.rs const DEFAULT_MAX_RECV_ONLINE
//@type crates/core/src/config/tls_commit/mpc.rs struct MpcTlsConfig
//@type crates/core/src/config/tls_commit/mpc.rs struct MpcTlsConfigBuilder
//@type crates/core/src/config/tls_commit/mpc.rs enum ErrorRepr
#[derive(Clone, Copy)]
//@type crates/core/src/config/tls_commit/mpc.rs enum NetworkSetting
//@derives crates/core/src/config/tls_commit/mpc.rs NetworkSetting Clone,Copy,Default
pub struct MpcTlsConfigError(pub ErrorRepr);
impl From<ErrorRepr> for MpcTlsConfigError { #[verifier::external_body] fn from(e: ErrorRepr) -> Self { unimplemented!() } }
pub uninterp spec fn default_network() -> NetworkSetting;
#[verifier::external_body]
pub fn vx_default_network(o: Option<NetworkSetting>) -> (r: NetworkSetting) ensures r == (match o { Some(n) => n, None => default_network() }) { unimplemented!() }
//@sub \b(network|self\.network)\.unwrap_or_default\(\) => vx_default_network($1)
impl MpcTlsConfig {
    pub open spec fn within(&self) -> bool { self.max_recv_data_online <= self.max_recv_data }
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::max_sent_data ret=r
    ensures r == self.max_sent_data
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::max_sent_records ret=r
    ensures r == self.max_sent_records
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::max_recv_data_online ret=r
    ensures r == self.max_recv_data_online
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::max_recv_data ret=r
    ensures r == self.max_recv_data
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::max_recv_records_online ret=r
    ensures r == self.max_recv_records_online
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::defer_decryption_from_start ret=r
    ensures r == self.defer_decryption_from_start
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfig::network ret=r
    ensures r == self.network
//@end
}
//@fn crates/core/src/config/tls_commit/mpc.rs validate ret=r
    ensures r is Ok <==> config.within(), r is Ok ==> r->Ok_0 == config
//@end
impl MpcTlsConfigBuilder {
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::max_sent_data ret=r
    ensures r == (MpcTlsConfigBuilder { max_sent_data: Some(max_sent_data), ..self })
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::max_sent_records ret=r
    ensures r == (MpcTlsConfigBuilder { max_sent_records: Some(max_sent_records), ..self })
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::max_recv_data_online ret=r
    ensures r == (MpcTlsConfigBuilder { max_recv_data_online: Some(max_recv_data_online), ..self })
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::max_recv_data ret=r
    ensures r == (MpcTlsConfigBuilder { max_recv_data: Some(max_recv_data), ..self })
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::max_recv_records_online ret=r
    ensures r == (MpcTlsConfigBuilder { max_recv_records_online: Some(max_recv_records_online), ..self })
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::defer_decryption_from_start ret=r
    ensures r == (MpcTlsConfigBuilder { defer_decryption_from_start: Some(defer_decryption_from_start), ..self })
//@end
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::network ret=r
    ensures r == (MpcTlsConfigBuilder { network: Some(network), ..self })
//@end
    pub open spec fn says(&self) -> MpcTlsConfig {
        MpcTlsConfig {
            max_sent_data: self.max_sent_data->0, max_sent_records: self.max_sent_records,
            max_recv_data_online: if self.max_recv_data_online is Some { self.max_recv_data_online->0 } else { 32 },
            max_recv_data: self.max_recv_data->0, max_recv_records_online: self.max_recv_records_online,
            defer_decryption_from_start: self.defer_decryption_from_start != Some(false),
            network: if self.network is Some { self.network->0 } else { default_network() },
        }
    }
//@fn crates/core/src/config/tls_commit/mpc.rs MpcTlsConfigBuilder::build ret=r
    ensures r is Ok <==> self.max_sent_data is Some && self.max_recv_data is Some && self.says().within(), r is Ok ==> r->Ok_0 == self.says()
//@end
}
//@type crates/core/src/config/tls_commit/mpc.rs struct MpcTlsConfigUnchecked
//@fn crates/core/src/config/tls_commit/mpc.rs "TryFrom<MpcTlsConfigUnchecked> for MpcTlsConfig::try_from" ret=r rename=vx_try_from pubfn
    ensures r is Ok <==> value.max_recv_data_online <= value.max_recv_data,
        r is Ok ==> r->Ok_0 == (MpcTlsConfig { max_sent_data: value.max_sent_data, max_sent_records: value.max_sent_records, max_recv_data_online: value.max_recv_data_online, max_recv_data: value.max_recv_data,
            max_recv_records_online: value.max_recv_records_online, defer_decryption_from_start: value.defer_decryption_from_start, network: value.network })
//@sub Self\s*::\s*Error => MpcTlsConfigError
//@sub \bSelf\b => MpcTlsConfig
//@end
} // verus!
}
verus! {
pub struct DnsName { x: u8 }
pub struct ServerName { x: u8 }
pub struct RootCertStore { x: u8 }
pub struct CertificateDer { x: u8 }
pub struct PrivateKeyDer { x: u8 }
} // verus!
// ---- crates/core/src/config/tls_commit/proxy.rs
pub mod vxproxy { use vstd::prelude::*; use super::*;
verus! {
//@type crates/core/src/config/tls_commit/proxy.rs enum ErrorRepr
pub struct ProxyTlsConfigError(pub ErrorRepr);
impl From<ErrorRepr> for ProxyTlsConfigError { #[verifier::external_body] fn from(e: ErrorRepr) -> Self { unimplemented!() } }
//@type crates/core/src/config/tls_commit/proxy.rs struct ProxyTlsConfig
//@type crates/core/src/config/tls_commit/proxy.rs struct ProxyTlsConfigBuilder
impl ProxyTlsConfig {
//@fn crates/core/src/config/tls_commit/proxy.rs ProxyTlsConfig::server_name ret=r
    ensures *r == self.server_name
//@end
}
impl ProxyTlsConfigBuilder {
//@fn crates/core/src/config/tls_commit/proxy.rs ProxyTlsConfigBuilder::server_name ret=r
    ensures r.server_name == Some(server_name)
//@end
//@fn crates/core/src/config/tls_commit/proxy.rs ProxyTlsConfigBuilder::build ret=r
    ensures r is Ok <==> self.server_name is Some, r is Ok ==> (r->Ok_0).server_name == self.server_name->0
//@end
}
} // verus!
}
// ---- crates/core/src/config/verifier.rs
pub mod vxverifier { use vstd::prelude::*; use super::*;
verus! {
//@type crates/core/src/config/verifier.rs enum ErrorRepr
pub struct VerifierConfigError(pub ErrorRepr);
impl From<ErrorRepr> for VerifierConfigError { #[verifier::external_body] fn from(e: ErrorRepr) -> Self { unimplemented!() } }
//@type crates/core/src/config/verifier.rs struct VerifierConfig
//@type crates/core/src/config/verifier.rs struct VerifierConfigBuilder
impl VerifierConfig {
//@fn crates/core/src/config/verifier.rs VerifierConfig::root_store ret=r
    ensures *r == self.root_store
//@end
}
impl VerifierConfigBuilder {
//@fn crates/core/src/config/verifier.rs VerifierConfigBuilder::root_store ret=r
    ensures r.root_store == Some(root_store)
//@end
//@fn crates/core/src/config/verifier.rs VerifierConfigBuilder::build ret=r
    ensures r is Ok <==> self.root_store is Some, r is Ok ==> (r->Ok_0).root_store == self.root_store->0
//@end
}
} // verus!
}
// ---- crates/core/src/config/tls.rs
pub mod vxtls { use vstd::prelude::*; use super::*;
verus! {
//@type crates/core/src/config/tls.rs enum ErrorRepr
pub struct TlsConfigError(pub ErrorRepr);
impl From<ErrorRepr> for TlsConfigError { #[verifier::external_body] fn from(e: ErrorRepr) -> Self { unimplemented!() } }
//@type crates/core/src/config/tls.rs struct TlsClientConfig
//@type crates/core/src/config/tls.rs struct TlsConfigBuilder
impl TlsClientConfig {
//@fn crates/core/src/config/tls.rs TlsClientConfig::server_name ret=r
    ensures *r == self.server_name
//@end
//@fn crates/core/src/config/tls.rs TlsClientConfig::root_store ret=r
    ensures *r == self.root_store
//@end
//@fn crates/core/src/config/tls.rs TlsClientConfig::client_auth ret=r
    ensures (r is None <==> self.client_auth is None), r is Some ==> *r->0 == self.client_auth->0
//@end
}
impl TlsConfigBuilder {
//@fn crates/core/src/config/tls.rs TlsConfigBuilder::server_name ret=r
    ensures r == (TlsConfigBuilder { server_name: Some(server_name), ..self })
//@end
//@fn crates/core/src/config/tls.rs TlsConfigBuilder::root_store ret=r
    ensures r == (TlsConfigBuilder { root_store: Some(store), ..self })
//@end
//@fn crates/core/src/config/tls.rs TlsConfigBuilder::client_auth ret=r
    ensures r == (TlsConfigBuilder { client_auth: Some(cert_key), ..self })
//@end
//@fn crates/core/src/config/tls.rs TlsConfigBuilder::build ret=r
    ensures r is Ok <==> self.server_name is Some && self.root_store is Some, r is Ok ==> r->Ok_0 == (TlsClientConfig { server_name: self.server_name->0, root_store: self.root_store->0, client_auth: self.client_auth })
//@end
}
} // verus!
}
// ---- crates/core/src/config/tls_commit.rs
pub mod vxcommit { use vstd::prelude::*; use super::*; use super::vxmpc::*; use super::vxproxy::*;
verus! {
//@type crates/core/src/config/tls_commit.rs enum TlsCommitConfig
impl TlsCommitConfig {
//@fn crates/core/src/config/tls_commit.rs "From<MpcTlsConfig> for TlsCommitConfig::from" ret=r rename=vx_from_mpc pubfn
    ensures r == TlsCommitConfig::Mpc(value)
//@end
//@fn crates/core/src/config/tls_commit.rs "From<ProxyTlsConfig> for TlsCommitConfig::from" ret=r rename=vx_from_proxy pubfn
    ensures r == TlsCommitConfig::Proxy(value)
//@end
}
} // verus!
}
