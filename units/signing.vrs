//@include prelude.inc
//@include bcl2.inc
//@include rangeset.inc
//@include hash.inc trust
//@include signing.inc
fn main() {}
