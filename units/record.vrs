//@include prelude.inc
//@include bc.inc
//@include codec.inc trust
//@include base.inc trust
//@include recenum.inc
//@include record.inc
fn main() {}
