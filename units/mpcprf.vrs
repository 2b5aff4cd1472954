//@include prelude.inc
//@include bc.inc
//@include mpcprf.inc
fn main() {}
