//@include prelude.inc
//@include bcl2.inc
//@include rangeset.inc
//@include hash.inc trust
//@include merkle.inc
fn main() {}
