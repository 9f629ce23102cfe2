#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FieldError {
    DivisionByZero,
    RootOfUnityError(u64),
    InvZeroError,
}
impl core::fmt::Display for FieldError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for FieldError {}
