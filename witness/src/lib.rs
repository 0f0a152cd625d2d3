//! Client of the library at opaque types. Never run: its type-checked MIR (and that of everything
//! it reaches) is what the analyser reads. Opaque operations are foreign functions without bodies.
#![feature(try_trait_v2)]
#![allow(dead_code, improper_ctypes, clippy::all)]
pub mod opaque;
pub mod models;
pub mod ring;
pub mod interval;
pub mod counter;
pub mod dset;
