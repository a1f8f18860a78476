//! verification shim
#[derive(Clone, Copy)]
pub struct Error;
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl core::fmt::Debug for Error { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Display for Error { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl<E: std::error::Error> From<E> for Error { fn from(_: E) -> Self { Error } }
#[macro_export] macro_rules! anyhow { ($($t:tt)*) => { $crate::Error } }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return ::core::result::Result::Err($crate::Error) } }
#[macro_export] macro_rules! ensure { ($c:expr $(, $($t:tt)*)?) => { if !$c { return ::core::result::Result::Err($crate::Error) } } }
pub trait Context<T> { fn context<C>(self, c: C) -> Result<T>; fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>; }
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _c: C) -> Result<T> { match self { Ok(t) => Ok(t), Err(_) => Err(Error) } }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { match self { Ok(t) => Ok(t), Err(_) => Err(Error) } }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _c: C) -> Result<T> { match self { Some(t) => Ok(t), None => Err(Error) } }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T> { match self { Some(t) => Ok(t), None => Err(Error) } }
}
