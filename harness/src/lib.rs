//! Conformance harness: executes scenarios (produced by TLC from the TLA+ specification or by the
//! random drivers in `gen`) against unixfs-v1 and records every call with its observable result as
//! one JSON line, which TLC then checks against the specification.
pub mod dag;
pub mod exec;
pub mod gen;
pub mod js;
pub mod model;
pub mod obs;
pub mod rng;
