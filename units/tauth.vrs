//@include prelude.inc
//@include rangeset.inc
//@include tmach.inc
//@include tauthb.inc
//@include tauth.inc
fn main() {}
