//! DAGs of other scenarios, for all of the readers.
use super::file::{meta, nodes_json};
use super::*;
use crate::dag::*;
use crate::js::*;
use crate::model::*;
use serde_json::json;

fn of(mut s: Value, r: &mut Rng) -> Value {
    s["kind"] = json!("agree");
    if s.get("name").is_none() {
        s["name"] = b(walk::root_name(r).as_bytes());
    }
    for k in ["range", "needle", "own"] {
        s.as_object_mut().unwrap().remove(k);
    }
    if r.chance(1, 2) {
        s["cache"] = json!(true);
    }
    s
}

/// A few nodes which are entries: empty directories, files and symlinks.
fn leaves(r: &mut Rng) -> Vec<ANode> {
    (0..r.us(1, 6))
        .map(|i| {
            let mut n = ANode::new(*r.pick(&[RAW, FILE, FILE, SYMLINK, DIR]));
            if n.fs.ty != Some(DIR) {
                n.fs.data = Some(vec![i as u8; r.us(0, 5)]);
            }
            meta(r, &mut n.fs);
            n
        })
        .collect()
}

/// A tree of shards over entries.
fn shards(r: &mut Rng) -> Value {
    let mut nodes = leaves(r);
    let m = nodes.len() as i64;
    let (shards, _) = res::shard_tree(r);
    nodes.extend(shards.into_iter().map(|mut n| {
        for l in &mut n.l {
            l.to = if l.to >= 200 { 1 + l.to % m } else if l.to > 0 { l.to + m } else { l.to };
        }
        n
    }));
    json!({"nodes": nodes_json(&nodes), "root": nodes.len()})
}

/// Directories and shards with few names, again and again the same ones.
fn alike(r: &mut Rng) -> Value {
    const NAMES: &[&str] = &["a", "b", "ab", "aa", "a b", "0Aa", "0A", "a.", "..", "ba"];
    let mut nodes = leaves(r);
    for _ in 0..r.us(1, 7) {
        let sharded = r.chance(1, 2);
        let mut n = ANode::new(if sharded { HAMT } else { DIR });
        if sharded {
            n.fs.hash_type = Some(34);
            n.fs.fanout = Some(256);
        }
        meta(r, &mut n.fs);
        let few = *r.pick(&[2, 5, 10]);
        for _ in 0..r.us(0, 4) {
            let to = if r.chance(1, 2) { nodes.len() } else { r.us(1, nodes.len()) };
            let name = NAMES[r.us(0, few - 1)];
            let bucket = sharded && nodes[to - 1].fs.ty == Some(HAMT) && r.chance(1, 2);
            let name = match (sharded, bucket) {
                (_, true) => r.pick(&["0A", "0B", "aa"]).to_string(),
                (true, _) => format!("{}{}", r.pick(&["0A", "0B", "aa"]), name),
                _ => name.to_string(),
            };
            n.l.push(ALink { to: to as i64, n: Some(name.into_bytes()), ts: if r.chance(4, 5) { Some(r.below(1000)) } else { None } });
        }
        nodes.push(n);
    }
    json!({"nodes": nodes_json(&nodes), "root": nodes.len()})
}

pub fn any(r: &mut Rng) -> Value {
    let s = match r.below(12) {
        0 => file::good(r),
        1 | 2 => file::bad(r),
        3 | 4 | 5 | 6 => walk::good(r),
        7 | 8 => walk::bad(r),
        9 => shards(r),
        10 => alike(r),
        _ => raw::any(r),
    };
    of(s, r)
}

pub fn big(r: &mut Rng) -> Value {
    let s = if r.chance(1, 3) { big::file(r) } else { big::walk(r) };
    of(s, r)
}
