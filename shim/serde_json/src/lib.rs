use serde::de::value::{Error as E, MapDeserializer};
pub type Error = E;
pub type Result<T> = core::result::Result<T, Error>;
pub fn from_slice<'a, T: serde::Deserialize<'a>>(_: &'a [u8]) -> Result<T> {
    T::deserialize(MapDeserializer::<core::iter::Empty<((), ())>, E>::new(core::iter::empty()))
}
pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<T> {
    from_slice(s.as_bytes())
}
