#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ByteConversionError {
    FromBEBytesError,
    FromLEBytesError,
    InvalidValue,
    PointNotInSubgroup,
    ValueNotReduced,
}
impl core::fmt::Display for ByteConversionError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("byte conversion error")
    }
}
impl std::error::Error for ByteConversionError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum CreationError {
    InvalidHexString,
    HexStringIsTooBig,
    EmptyString,
    InvalidDecString,
}
impl core::fmt::Display for CreationError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("creation error")
    }
}
impl std::error::Error for CreationError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializationError {
    InvalidAmountOfBytes,
    FieldFromBytesError,
    PointerSizeError,
    InvalidValue,
}
impl core::fmt::Display for DeserializationError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("deserialization error")
    }
}
impl std::error::Error for DeserializationError {}
impl From<ByteConversionError> for DeserializationError {
    fn from(error: ByteConversionError) -> Self {
        match error {
            ByteConversionError::FromBEBytesError => DeserializationError::FieldFromBytesError,
            ByteConversionError::FromLEBytesError => DeserializationError::FieldFromBytesError,
            _ => DeserializationError::InvalidValue,
        }
    }
}
