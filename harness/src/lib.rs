//! Property-based checking of adhoc_audio: engine, generators and reference models.
pub mod engine;
pub mod gen;
pub mod refcodec;
pub mod wavref;
