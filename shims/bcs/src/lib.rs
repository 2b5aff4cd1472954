//! Stand-in for `bcs` (not available offline): a deterministic binary encoding.
pub fn to_bytes<T: ?Sized + serde::Serialize>(v: &T) -> Result<Vec<u8>, bincode::Error> {
    bincode::serialize(v)
}
