//@include prelude.inc
//@include bcl.inc
//@include codec.inc trust
//@include base.inc trust
//@include enums.inc trust
//@include hsbase.inc trust
//@include hsparts.inc trust
//@include hsexts.inc trust
//@include hsmsg.inc trust
//@include hspay.inc
fn main() {}
