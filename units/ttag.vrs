//@include prelude.inc
//@include codec.inc trust
//@include base.inc trust
//@include enums.inc trust
//@include tmach.inc
//@include ttagb.inc
//@include ttag.inc
fn main() {}
