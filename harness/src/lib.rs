//! Verification harness: reference TLS 1.3 peer and replay engine.
#![allow(clippy::all)]
pub mod json;
pub mod refcrypto;
pub mod derx;
pub mod tls;
pub mod net;
pub mod puppet;
