//@include prelude.inc
//@include bcl.inc
//@include codec.inc trust
//@include base.inc trust
//@include enums.inc trust
//@include hsbase.inc trust
//@include mpcrec.inc trust
//@include mpcutil.inc trust
//@include mpcfol.inc
fn main() {}
