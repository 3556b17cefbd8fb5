use crate::field::errors::FieldError;
#[derive(Debug)]
pub enum FFTError {
    RootOfUnityError(u64),
    InputError(usize),
    DomainSizeError(usize),
}
impl core::fmt::Display for FFTError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("fft error")
    }
}
impl std::error::Error for FFTError {}
impl From<FieldError> for FFTError {
    fn from(error: FieldError) -> Self {
        match error {
            FieldError::RootOfUnityError(order) => FFTError::RootOfUnityError(order),
            _ => panic!("Division by zero"),
        }
    }
}
