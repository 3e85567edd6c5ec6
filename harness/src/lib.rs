//! Analysis roots.  Nothing here is ever executed: the functions only give the
//! analyser monomorphic entry points into the public API of essay-tensor.
#![allow(dead_code, unused)]
pub mod uf;
pub mod common;
pub mod maps;
pub mod shape;
pub mod view;
pub mod join;
pub mod arrange;
pub mod gens;
pub mod conv;
pub mod ops;
pub mod stat;
pub mod model;
pub mod misc;
