//@include prelude.inc
//@include auth.inc
fn main() {}
