//@include prelude.inc
//@include rangeset.inc
//@include transcript.inc
verus! { broadcast use {vxrs::axiom_canon, vxrs::lemma_take_full}; }
fn main() {}
