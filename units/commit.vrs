//@include prelude.inc
//@include bcl2.inc
//@include rangeset.inc
//@include hash.inc trust
//@include transcript.inc trust
//@include commit.inc
fn main() {}
