//@include prelude.inc
//@include bc.inc
//@include codec.inc
//@include base.inc
fn main() {}
