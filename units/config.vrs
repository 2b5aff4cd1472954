//@include prelude.inc
//@include bcl2.inc
//@include rangeset.inc
//@include hash.inc trust
//@include transcript.inc trust
//@include commit.inc trust
//@include config.inc
fn main() {}
