//! What `enc.rs` of the harness needs.
use std::path::PathBuf;

#[derive(Debug)]
pub enum Stop {
    Violation(#[allow(dead_code)] String),
    Error(#[allow(dead_code)] String),
}
pub fn sut<T>(_: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    Ok(f())
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
