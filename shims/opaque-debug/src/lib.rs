//! Stand-in for `opaque-debug` (not available offline).
#[macro_export]
macro_rules! implement {
    ($t:ty) => {
        impl ::core::fmt::Debug for $t {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($t), " { ... }"))
            }
        }
    };
}
