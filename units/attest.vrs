//@include prelude.inc
//@include bcl2.inc
//@include rangeset.inc
//@include codec.inc trust
//@include base.inc trust
//@include hash.inc trust
//@include transcript.inc trust
//@include proof.inc trust
//@include identity.inc trust
//@include signing.inc trust
//@include attbase.inc trust
//@include attconn.inc trust
//@include merkle.inc trust
//@include attest.inc
//@include attest2.inc
//@include attest3.inc
//@include attest4.inc
fn main() {}
