//! Lookups in directories and shard trees.
use super::file::{meta, nodes_json};
use super::walk::{mutate_dir, names, BAD_NAMES, NAMES};
use crate::dag::*;
use crate::js::*;
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

fn target(r: &mut Rng) -> i64 {
    if r.chance(1, 25) { -(r.below(6) as i64) } else { 200 + r.below(30) as i64 }
}

fn scn(r: &mut Rng, nodes: &[ANode], root: i64, needle: &str) -> Value {
    json!({"kind": "res", "nodes": nodes_json(nodes), "root": root, "needle": b(needle.as_bytes()), "own": r.chance(1, 3)})
}

/// A name to look up: one of the names in the node, or a variation of it.
fn needle(r: &mut Rng, nodes: &[ANode], hamt: bool) -> String {
    let names: Vec<String> = nodes
        .iter()
        .flat_map(|n| n.l.iter())
        .filter_map(|l| l.n.clone())
        .filter_map(|n| String::from_utf8(n).ok())
        .collect();
    if names.is_empty() || r.chance(1, 6) {
        return r.pick(NAMES).to_string();
    }
    let n = r.pick(&names).clone();
    let entry = if hamt { n.get(2..).map(|x| x.to_string()).unwrap_or_default() } else { n.clone() };
    match r.below(10) {
        0 => n,
        1 => format!("{}x", entry),
        2 => entry.to_uppercase(),
        3 => entry.chars().skip(1).collect(),
        4 => {
            let mut e = entry;
            e.pop();
            e
        }
        _ => entry,
    }
}

pub fn plain(r: &mut Rng) -> Value {
    let mut n = ANode::new(DIR);
    match r.below(8) {
        0 => n.kind = Kind::None,
        1 => n.kind = Kind::Empty,
        2 => n.kind = Kind::Raw(vec![0xff]),
        3 => n.kind = Kind::Raw(vec![0x08]),
        _ => {}
    }
    if r.chance(1, 3) {
        meta(r, &mut n.fs);
    }
    let fan = *r.pick(&[0, 1, 2, 3, 5, 9, 30]);
    let distinct = r.chance(1, 2);
    let mut names: Vec<String> = names(r).into_iter().chain(BAD_NAMES.iter().map(|x| x.to_string())).collect();
    r.shuffle(&mut names);
    for i in 0..fan {
        let name = if distinct && i < names.len() { names[i].to_string() } else { names[r.us(0, names.len() / 2)].to_string() };
        n.l.push(ALink { to: target(r), n: if r.chance(1, 20) { None } else { Some(name.into_bytes()) }, ts: if r.chance(1, 2) { Some(r.below(1 << 40)) } else { None } });
    }
    n.data_first = r.chance(1, 6);
    if r.chance(1, 10) {
        let mut v = vec![n];
        mutate_dir(r, &mut v);
        n = v.pop().unwrap();
    }
    let nodes = vec![n];
    let nd = needle(r, &nodes, false);
    scn(r, &nodes, 1, &nd)
}

pub fn shards(r: &mut Rng) -> Value {
    let (nodes, nd) = shard_tree(r);
    let root = nodes.len() as i64;
    scn(r, &nodes, root, &nd)
}

pub fn shard_tree(r: &mut Rng) -> (Vec<ANode>, String) {
    let count = *r.pick(&[1, 2, 3, 4, 6, 9, 14]);
    let mut nodes: Vec<ANode> = vec![];
    let mut free: Vec<i64> = vec![];
    let names = names(r);
    let mut used = 0;
    for c in 0..count {
        let mut n = ANode::new(HAMT);
        n.fs.hash_type = Some(34);
        n.fs.fanout = Some(256);
        if r.chance(1, 2) {
            let k = r.us(0, 6);
            n.fs.data = Some(r.bytes(k));
        }
        if r.chance(1, 4) {
            meta(r, &mut n.fs);
        }
        for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
            let name = if r.chance(1, 10) { &names[0] } else { used += 1; &names[used % names.len()] };
            n.l.push(ALink { to: target(r), n: Some(format!("{}{}", r.pick(&["0A", "FF", "00", "B7", "zz", "\u{e4}"]), name).into_bytes()), ts: Some(1) });
        }
        // buckets: all of the free shards in the root, some of them otherwise
        let k = if c + 1 == count { free.len() } else { r.us(0, free.len().min(4)) };
        for _ in 0..k {
            let x = r.us(0, free.len() - 1);
            n.l.push(ALink { to: free.remove(x), n: Some(r.pick(&["0A", "FF", "00", "B7", "zz", "\u{e4}"]).as_bytes().to_vec()), ts: Some(1) });
        }
        if c > 0 && r.chance(1, 12) {
            n.l.push(ALink { to: r.range(1, c as u64) as i64, n: Some(b"AA".to_vec()), ts: Some(1) });
        }
        if r.chance(1, 2) {
            r.shuffle(&mut n.l);
        }
        n.data_first = r.chance(1, 10);
        nodes.push(n);
        free.push(c as i64 + 1);
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            mutate_dir(r, &mut nodes);
        }
    }
    let nd = needle(r, &nodes, true);
    (nodes, nd)
}
