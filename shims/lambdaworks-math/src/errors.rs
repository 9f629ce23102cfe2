use core::fmt;

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum ByteConversionError {
    FromBEBytesError,
    FromLEBytesError,
    InvalidValue,
    PointNotInSubgroup,
    ValueNotCompressed,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum CreationError {
    InvalidHexString,
    InvalidDecString,
    HexStringIsTooBig,
    EmptyString,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum DeserializationError {
    InvalidAmountOfBytes,
    FieldFromBytesError,
    PointerSizeError,
    InvalidValue,
}

impl From<ByteConversionError> for DeserializationError {
    fn from(error: ByteConversionError) -> Self {
        match error {
            ByteConversionError::InvalidValue => DeserializationError::InvalidValue,
            _ => DeserializationError::FieldFromBytesError,
        }
    }
}

macro_rules! disp {
    ($($t:ty),*) => {$(
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) }
        }
        impl std::error::Error for $t {}
    )*};
}
disp!(ByteConversionError, CreationError, DeserializationError);
