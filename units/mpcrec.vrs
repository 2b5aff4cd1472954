//@include prelude.inc
//@include bc.inc
//@include codec.inc trust
//@include base.inc trust
//@include enums.inc trust
//@include mpcrec.inc
fn main() {}
