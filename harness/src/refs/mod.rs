//! Independent reference implementations (written from the specifications, sharing no code with
//! the library under test).
pub mod aes;
pub mod b64;
pub mod salsa;
pub mod sha;
pub mod xml;
