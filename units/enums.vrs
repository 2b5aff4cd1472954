//@include prelude.inc
//@include bcl.inc
//@include codec.inc trust
//@include base.inc trust
//@include enums.inc
fn main() {}
