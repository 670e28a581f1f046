#@struct error.rs Error
#@verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
