//@include prelude.inc
//@include bc.inc
//@include codec.inc trust
//@include base.inc trust
//@include recenum.inc trust
//@include record.inc trust
//@include fragmenter.inc
fn main() {}
