//! An independent writer of JPEG XL codestreams, used to generate inputs whose correct decoding is
//! known.  Written from the format, not from the decoder.
pub mod bits;
pub mod entropy;
pub mod frame;
pub mod hdr;
pub mod icc;
pub mod modular;
pub mod make;
pub mod movie;
pub mod vardct;
