//@include prelude.inc
//@include bcl2.inc
//@include rangeset.inc
//@include codec.inc trust
//@include base.inc trust
//@include hash.inc trust
//@include identity.inc
//@include signing.inc trust
//@include attbase.inc
//@include attconn.inc
fn main() {}
