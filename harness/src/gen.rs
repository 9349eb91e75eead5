//! Random scenario drivers (deterministic for a seed).
use crate::rng::Rng;
use serde_json::Value;

pub mod add;
pub mod agree;
pub mod big;
pub mod bld;
pub mod file;
pub mod hist;
pub mod pb;
pub mod raw;
pub mod res;
pub mod tree;
pub mod walk;

/// Scenarios of a suite.
pub fn suite(name: &str, r: &mut Rng) -> Value {
    match name {
        "file-good" => file::good(r),
        "file-bad" => file::bad(r),
        "walk-good" => walk::good(r),
        "walk-bad" => walk::bad(r),
        "res-plain" => res::plain(r),
        "pb" => pb::helpers(r),
        "val" => pb::value(r),
        "symlink" => pb::symlink(r),
        "hist" => hist::any(r),
        "raw" => raw::any(r),
        "tree" => tree::any(r),
        "agree" => agree::any(r),
        "agree-big" => agree::big(r),
        "add" => add::any(r),
        "builder" => bld::any(r),
        "file-big" => big::file(r),
        "walk-big" => big::walk(r),
        "res-big" => big::lookup(r),
        "bld-big" => big::builder(r),
        "sym-big" => big::symlink(r),
        "add-big" => big::import(r),
        "pb-big" => big::helpers(r),
        "val-big" => big::value(r),
        "res-shards" => res::shards(r),
        _ => panic!("unknown suite {}", name),
    }
}
