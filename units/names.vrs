//@include prelude.inc
//@include bc.inc
//@include x509.inc trust
//@include names.inc
fn main() {}
