//! DAGs of directories, HAMT shards, files and symlinks.
use super::file::{meta, mutate, nodes_json, tree};
use crate::dag::*;
use crate::js::*;
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

pub const NAMES: &[&str] = &[
    "a", "b", "c", "ab", "abc", "0A", "00", "..", "...", " ", "x y", "\u{e4}", "\u{20ac}uro", "\u{1f600}", "A1file", "-", "a.b", "\\", "\n",
    "longer name with several words", "a\u{0}b", "~", "%2F", "\u{feff}",
];
pub const BAD_NAMES: &[&str] = &["", ".", "/", "a/b", "/a", "a/", "./a", "../x", "\u{e4}", "0\u{e4}", "0\u{e4}x", "\u{20ac}", "0A.", "0A/", "0A/x", "0", "0A"];

/// Parts which names and symlink targets are put together from.
const PARTS: &[&str] = &[
    ".", "..", " ", "a", "A", "b", "\u{e9}", "e\u{301}", "\0", "\\", "~", ":", "*", "?", "%41", "-", "_", "0", "00", "FF", "0a", "\u{202e}", "\t",
    "\r", "\n", "'", "\"", "$", "{}", "\u{ffff}", "\u{df}", "\u{130}", "\u{10ffff}", "Z", ".txt", "&", "=", "#", "\u{7f}", "\u{80}",
];
/// A name which can be a component of a path.
pub fn name(r: &mut Rng) -> String {
    loop {
        let s: String = (0..r.us(1, 4)).map(|_| *r.pick(PARTS)).collect();
        if s != "." {
            return s;
        }
    }
}
/// Many distinct names.
pub fn names(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
    r.shuffle(&mut v);
    if r.chance(1, 2) {
        for i in 0..6 {
            let n = name(r);
            if !v.contains(&n) {
                v[i] = n;
            }
        }
    }
    v
}
/// The target of a symlink.
pub fn target(r: &mut Rng) -> String {
    (0..r.us(0, 6))
        .map(|_| match r.below(3) {
            0 => r.pick(&["./", "../", "/", "//", ".", "..", "a/", "/."]).to_string(),
            1 => r.pick(&["a", "b", "target", "x y"]).to_string(),
            _ => r.pick(PARTS).to_string(),
        })
        .collect()
}

/// Adds a random tree and returns its id; `w` bounds how many blocks a walk over it loads.
pub fn entry(r: &mut Rng, nodes: &mut Vec<ANode>, weights: &mut Vec<usize>, depth: u32, want: &str) -> i64 {
    let reuse = !weights.is_empty() && r.chance(1, 7) && want == "any";
    if reuse {
        let i = r.us(0, weights.len() - 1);
        // chunks of files may be linked as files, they have no metadata; weight 0: not an entry
        if weights[i] > 0 {
            return i as i64 + 1;
        }
    }
    let kind = match want {
        "any" if depth == 0 => *r.pick(&["file", "file", "sym", "dir", "hamt"]),
        "any" => *r.pick(&["file", "sym", "dir", "dir", "hamt", "hamt"]),
        x => x,
    };
    match kind {
        "file" => {
            let d = *r.pick(&[0, 0, 1, 1, 2]);
            let before = nodes.len();
            let (id, _) = tree(r, nodes, d, true, &mut vec![]);
            let mut size = vec![0usize; nodes.len()];
            for i in before..nodes.len() {
                size[i] = 1 + nodes[i].l.iter().map(|l| size[l.to as usize - 1]).sum::<usize>();
                weights.push(if i + 1 == nodes.len() { size[i] } else { 0 });
            }
            id
        }
        "sym" => {
            let mut n = ANode::new(SYMLINK);
            n.fs.data = match r.below(6) {
                0 => None,
                1 => Some(vec![]),
                2 | 3 => Some(target(r).into_bytes()),
                _ => {
                    let k = r.us(1, 9);
                    Some(r.bytes(k))
                }
            };
            meta(r, &mut n.fs);
            nodes.push(n);
            weights.push(1);
            nodes.len() as i64
        }
        k => {
            let hamt = k != "dir";
            let fan = if depth == 0 { 0 } else { *r.pick(&[0, 1, 1, 2, 2, 3, 4]) };
            let names = names(r);
            let mut l = vec![];
            let mut w = 1;
            for i in 0..fan {
                let bucket = hamt && r.chance(1, 3);
                let to = entry(r, nodes, weights, depth - 1, if bucket { "bucket" } else { "any" });
                w += weights[to as usize - 1];
                let mut name = if r.chance(1, 12) { names[0].to_string() } else { names[i].to_string() };
                if hamt {
                    let p = *r.pick(&["0A", "FF", "00", "B7", "zz"]);
                    name = if bucket { p.to_string() } else { format!("{}{}", p, name) };
                }
                l.push(ALink { to, n: Some(name.into_bytes()), ts: if r.chance(4, 5) { Some(r.below(100_000)) } else { None } });
            }
            let mut n = ANode::new(if hamt { HAMT } else { DIR });
            if hamt {
                n.fs.hash_type = Some(34);
                n.fs.fanout = Some(256);
                if r.chance(1, 2) {
                    let k = r.us(0, 6);
                    n.fs.data = Some(r.bytes(k));
                }
            } else if r.chance(1, 6) {
                n.fs.data = Some(vec![]);
            }
            meta(r, &mut n.fs);
            n.l = l;
            n.data_first = r.chance(1, 10);
            nodes.push(n);
            weights.push(w);
            nodes.len() as i64
        }
    }
}

fn any(r: &mut Rng, max: usize) -> (Vec<ANode>, i64) {
    loop {
        let (mut nodes, mut weights) = (vec![], vec![]);
        let depth = r.range(0, 5) as u32;
        let want = *r.pick(&["any", "dir", "hamt", "hamt"]);
        let root = entry(r, &mut nodes, &mut weights, depth, want);
        if nodes.len() > max || weights[root as usize - 1] > 3 * max {
            continue;
        }
        return (nodes, root);
    }
}

pub fn root_name(r: &mut Rng) -> &'static str {
    if r.chance(1, 8) {
        return r.pick(&["a/", "a//b", "./a", ".", "..", "../..", "a/.", "a/./b", "a/..", "/a/", "//", "//a", "/..", "///a//b///", "./", ".//a", "a/b/c/d", "\0"]);
    }
    r.pick(&["", "", "root", "a/b", "/", "/abs", ".x", "\u{e4}"])
}

fn scn(r: &mut Rng, nodes: &[ANode], root: i64) -> Value {
    let name = root_name(r);
    json!({"kind": "walk", "nodes": nodes_json(nodes), "root": root, "name": b(name.as_bytes())})
}

pub fn good(r: &mut Rng) -> Value {
    let (nodes, root) = any(r, 50);
    scn(r, &nodes, root)
}

/// Changes of directories, shards and symlinks; falls back to those of files.
pub fn mutate_dir(r: &mut Rng, nodes: &mut Vec<ANode>) {
    let i = r.us(0, nodes.len() - 1);
    let n = &mut nodes[i];
    if n.l.is_empty() && r.chance(2, 3) || r.chance(1, 5) {
        return mutate(r, nodes);
    }
    match r.below(12) {
        0 | 1 | 2 if !n.l.is_empty() => {
            let k = r.us(0, n.l.len() - 1);
            n.l[k].n = if r.chance(1, 10) { None } else { Some(r.pick(BAD_NAMES).as_bytes().to_vec()) };
        }
        3 => n.fs.ty = Some(*r.pick(&[0, 1, 2, 3, 4, 5, 5, 6, 7, 99])),
        4 => n.fs.ty = None,
        5 => n.fs.hash_type = *r.pick(&[None, Some(34), Some(35), Some(u64::MAX)]),
        6 => n.fs.fanout = *r.pick(&[None, Some(256), Some(255), Some(1), Some(512)]),
        7 => n.fs.filesize = Some(r.below(3)),
        8 => n.fs.blocksizes.push(r.below(3)),
        9 => n.fs.data = Some(vec![1]),
        10 if !n.l.is_empty() => {
            let k = r.us(0, n.l.len() - 1);
            let x = n.l[k].clone();
            n.l.push(x);
        }
        11 if !n.l.is_empty() => {
            let k = r.us(0, n.l.len() - 1);
            n.l[k].to = -(r.below(6) as i64);
        }
        _ => mutate(r, nodes),
    }
}

pub fn bad(r: &mut Rng) -> Value {
    let (mut nodes, root) = any(r, 25);
    for _ in 0..r.range(1, 2) {
        mutate_dir(r, &mut nodes);
    }
    // undefined types in a DAG are rare: they are read as Raw
    scn(r, &nodes, root)
}
