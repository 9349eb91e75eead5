//! Projections of results of the code under test to observations (JSON).
use crate::js::*;
use crate::model::Dag;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unixfs_v1::dir::{MaybeResolved, ResolveError, ShardError, LookupError};
use unixfs_v1::dir::MultipleMatchingLinks;
use unixfs_v1::file::{FileError, FileReadFailed};
use unixfs_v1::walk::Error as WalkError;
use unixfs_v1::{InvalidCidInLink, Metadata, UnexpectedNodeType};

/// Runs the closure; a panic becomes an observation.
pub fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"k": "panic", "msg": m.chars().filter(|c| c.is_ascii()).take(200).collect::<String>()})
        }
    }
}

/// Formatting a value of the crate must not panic; values with much in them are skipped.
pub fn formats(size: usize, x: &dyn std::fmt::Debug) {
    if size < 12 {
        let _ = format!("{:?}", x);
    }
}

pub fn md(m: &Metadata) -> Value {
    json!({
        "mode": opt(m.mode(), |x| u(x as u64)),
        "mt": opt(m.mtime(), |(s, n)| json!({"s": u(s as u64), "n": u(n as u64)})),
        "ft": match (m.mtime(), m.mtime_as_filetime()) {
            (None, None) => true,
            (Some((s, n)), Some(ft)) => ft.unix_seconds() == s && ft.nanoseconds() == n,
            _ => false,
        },
    })
}

/// The error's text with everything but a leading node type number dropped: tolerant to wording.
pub fn node_type(t: &UnexpectedNodeType) -> Value {
    let s = format!("{:?}", t);
    let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    let mut num = digits.parse::<u64>().ok().filter(|x| *x < 1 << 30);
    // a name told besides the number must be the one of the number
    let names = ["Raw", "Directory", "File", "Metadata", "Symlink", "HAMTShard"];
    if num.map_or(false, |n| names.iter().enumerate().any(|(i, name)| s.contains(name) && i as u64 != n)) {
        num = Some(99);
    }
    json!({"dir": t.is_directory(), "file": t.is_file(), "num": opt(num, |x| json!(x))})
}

pub fn bad_cid(e: &InvalidCidInLink) -> Value {
    // the label of the invalid hash (model::invalid_hash), 99 for any other
    let to = (0..=5).map(|i| -i).find(|i| *i != -1 && crate::model::invalid_hash(*i).as_deref() == Some(&e.hash[..]));
    json!({"nth": e.nth, "name": b(e.name.as_bytes()), "to": to.unwrap_or(99)})
}

fn err(e: &str, d: Value) -> Value {
    json!({"k": "err", "e": e, "d": d})
}

pub fn file_error(e: &FileError) -> Value {
    use FileError::*;
    match e {
        LinksAndBlocksizesMismatch => err("LinksAndBlocksizesMismatch", json!([])),
        NoLinksNoContent => err("NoLinksNoContent", json!([])),
        NonRootDefinesMetadata(m) => err("NonRootDefinesMetadata", json!([md(m)])),
        IntermediateNodeWithoutFileSize => err("IntermediateNodeWithoutFileSize", json!([])),
        TreeExpandsOnLinks => err("TreeExpandsOnLinks", json!([])),
        TreeOverlapsBetweenLinks => err("TreeOverlapsBetweenLinks", json!([])),
        EarlierLink => err("EarlierLink", json!([])),
        TreeJumpsBetweenLinks => err("TreeJumpsBetweenLinks", json!([])),
        UnexpectedRawOrFileProperties { hash_type, fanout } => {
            err("UnexpectedRawOrFileProperties", json!([{"ht": opt(*hash_type, u), "fo": opt(*fanout, u)}]))
        }
    }
}

pub fn file_read_failed(e: &FileReadFailed) -> Value {
    use FileReadFailed::*;
    let _ = format!("{} {:?}", e, e);
    match e {
        File(e) => file_error(e),
        UnexpectedType(t) => err("UnexpectedType", json!([node_type(t)])),
        Read(Some(_)) => err("Read", json!([])),
        Read(None) => err("ReadNone", json!([])),
        InvalidCid(i) => err("InvalidCid", json!([bad_cid(i)])),
    }
}

/// The values are only accessible in the texts; nothing is told of them when the text has another
/// form than expected.
fn unsupported_dir(e: &(impl std::fmt::Debug + std::fmt::Display)) -> Value {
    let s = format!("{:?}", e);
    let _ = format!("{}", e);
    let field = |name: &str| -> Option<&str> {
        let at = s.find(&format!("{}: ", name))? + name.len() + 2;
        let rest = &s[at..];
        let end = rest.find(|c| c == ']' || c == ')').map(|x| x + 1).unwrap_or(rest.len());
        if rest.starts_with("None") { Some("") } else { Some(&rest[..end]) }
    };
    let nums = |name: &str| -> Option<Vec<u64>> {
        field(name)?.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
    };
    let d = || -> Option<Value> {
        let us = |name| nums(name).map(|v| v.into_iter().map(u).collect::<Vec<_>>());
        let has_data = field("data")? != "";
        let data: Vec<u8> = nums("data")?.into_iter().map(|x| x as u8).collect();
        Some(json!({"sz": us("filesize")?, "bs": us("blocksizes")?, "ht": us("hash_type")?, "fo": us("fanout")?,
            "data": if has_data { json!([b(&data)]) } else { json!([]) }}))
    };
    err("UnsupportedDirectory", opt(d(), |x| x))
}

fn shard(e: &ShardError) -> Value {
    match e {
        ShardError::UnsupportedProperties { hash_type, fanout } => {
            err("ShardUnsupported", json!([{"ht": opt(*hash_type, u), "fo": opt(*fanout, u)}]))
        }
        ShardError::UnexpectedProperties { filesize, blocksizes } => {
            err("ShardUnexpected", json!([{"sz": opt(*filesize, u), "bs": blocksizes.iter().map(|x| u(*x)).collect::<Vec<_>>()}]))
        }
    }
}

pub fn walk_error(e: &WalkError) -> Value {
    let _ = format!("{} {:?}", e, e);
    match e {
        WalkError::UnsupportedType(t) => err("UnsupportedType", json!([node_type(t)])),
        WalkError::UnexpectedType(t) => err("UnexpectedType", json!([node_type(t)])),
        WalkError::DagPbParsingFailed(_) => err("DagPb", json!([])),
        WalkError::UnixFsParsingFailed(_) => err("UnixFs", json!([])),
        WalkError::EmptyDagPbNode => err("ReadNone", json!([])),
        WalkError::InvalidCid(i) => err("InvalidCid", json!([bad_cid(i)])),
        WalkError::File(f) => file_error(f),
        WalkError::UnsupportedDirectory(p) => unsupported_dir(p),
        WalkError::UnsupportedHAMTShard(s) => shard(s),
        #[allow(unreachable_patterns)]
        other => {
            // variants of the Debug form "Name(..)": kept generic not to depend on them
            let s = format!("{:?}", other);
            let name: String = s.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
            err(&name, json!([]))
        }
    }
}

fn multiple(m: &MultipleMatchingLinks, dag: &Dag) -> Value {
    match m {
        MultipleMatchingLinks::Two { first, second } => {
            err("Multiple", json!([{"i": first.0, "a": dag.id(&first.1), "j": second.0, "b": dag.id(&second.1)}]))
        }
        MultipleMatchingLinks::OneValid { first, second } => {
            err("MultipleOneValid", json!([{"i": first.0, "a": dag.id(&first.1), "j": second.nth, "bad": bad_cid(second)}]))
        }
    }
}

pub fn lookup_error(e: &LookupError, dag: &Dag) -> Value {
    let _ = format!("{} {:?}", e, e);
    match e {
        LookupError::UnexpectedBucketType(t) => err("UnexpectedBucketType", json!([node_type(t)])),
        LookupError::Shard(s) => shard(s),
        LookupError::Multiple(m) => multiple(m, dag),
        LookupError::InvalidCid(i) => err("InvalidCid", json!([bad_cid(i)])),
        LookupError::Read(Some(_)) => err("Read", json!([])),
        LookupError::Read(None) => err("ReadNone", json!([])),
    }
}

pub fn resolve_error(e: &ResolveError, dag: &Dag) -> Value {
    let _ = format!("{} {:?}", e, e);
    match e {
        ResolveError::UnexpectedType(t) => err("UnexpectedType", json!([node_type(t)])),
        ResolveError::UnexpectedDirProperties(p) => unsupported_dir(p),
        ResolveError::Read(_) => err("Read", json!([])),
        ResolveError::Lookup(l) => lookup_error(l, dag),
    }
}

pub fn resolved(r: &MaybeResolved<'_>, dag: &Dag) -> Value {
    match r {
        MaybeResolved::Found(c) => json!({"k": "found", "id": dag.id(c), "pend": []}),
        MaybeResolved::NotFound => json!({"k": "notfound", "id": 0, "pend": []}),
        MaybeResolved::NeedToLoadMore(s) => {
            let (first, rest) = s.pending_links();
            let mut v = vec![dag.id(first)];
            v.extend(rest.map(|c| dag.id(c)));
            json!({"k": "more", "id": 0, "pend": [v]})
        }
    }
}
