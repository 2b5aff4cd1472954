//@include prelude.inc
//@include bc.inc
//@include x509.inc
fn main() {}
