//! Stand-in for the missing typetag fork: only what macro expansion needs. Registrations stay visible in the expanded source.
pub use typetag_impl::serde;
pub trait Tagged { fn tag() -> String; }
#[macro_export]
macro_rules! __submit { ($($t:tt)*) => { const _: () = { fn __typetag_submit() { $($t)*; } }; }; }
pub mod __private {
    pub use std::{boxed::Box, result::Result};
    pub mod inventory { pub use crate::__submit as submit; }
    pub mod erased_serde { pub fn deserialize<T>(_: &mut ()) -> Result<T, ()> { Err(()) } }
    pub type DeserializeFn<T> = fn(&mut ()) -> Result<Box<T>, ()>;
    pub fn impl_of(_trait: &str, _type: &str, _generics: usize) {}
    pub trait Strictest { type Object: ?Sized; }
}
