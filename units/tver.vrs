//@include prelude.inc
//@include rangeset.inc
//@include tmach.inc
//@include tauthb.inc
//@include tauth.inc trust
//@include hash.inc trust
//@include transcript.inc trust
//@include commit.inc trust
//@include config.inc trust
//@include tver.inc
fn main() {}
