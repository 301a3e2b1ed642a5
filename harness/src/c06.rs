//! Pages and archetypes that empty out and are reused (components big enough that a page holds few).
pub use crate::c03::{history, symbolic};
