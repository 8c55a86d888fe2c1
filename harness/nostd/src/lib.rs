//! Builds only if the library does on a target which has no standard library.
#![no_std]
pub use oauth;
