//! Only there to build askama with some of its features.
pub use askama;
