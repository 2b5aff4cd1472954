//@include prelude.inc
//@include bcl.inc
//@include hash.inc
fn main() {}
