//! File DAGs: well-formed ones and mutations of them.
use crate::dag::*;
use crate::js::*;
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn nodes_json(nodes: &[ANode]) -> Value {
    Value::Array(nodes.iter().map(|n| n.json()).collect())
}

pub fn meta(r: &mut Rng, fs: &mut Fs) {
    if r.chance(1, 2) {
        fs.mode = Some(*r.pick(&[0o644, 0o755, 0, 1, 0o777, u32::MAX, 0x8000_0000]));
    }
    if r.chance(1, 2) {
        let s = *r.pick(&[0, 1, 1_600_000_000, i64::MAX, 0x7fff_ffff, 0x8000_0000, -1, i64::MIN]);
        let n = if r.chance(1, 2) { Some(*r.pick(&[0u32, 1, 500, 999_999_999, 1_000_000_000, 2_999_999_999, u32::MAX])) } else { None };
        fs.mtime = Some((s, n));
    }
}

pub fn big(r: &mut Rng) -> u64 {
    *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 5, 1 << 63, (1 << 63) - 1, 1 << 32, 1 << 24, 128, 127, 16384])
}

/// Appends a well-formed file tree and returns (id, size); ids are 1-based.
pub fn tree(r: &mut Rng, nodes: &mut Vec<ANode>, depth: u32, root: bool, reuse: &mut Vec<(i64, u64)>) -> (i64, u64) {
    if !root && !reuse.is_empty() && r.chance(1, 6) {
        return *r.pick(reuse);
    }
    let mut n = ANode::new(if r.chance(1, 2) { RAW } else { FILE });
    if root && r.chance(1, 2) {
        meta(r, &mut n.fs);
    }
    let size;
    if depth == 0 || r.chance(1, 4) {
        let len = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 7]);
        if len > 0 || r.chance(1, 2) {
            n.fs.data = Some(r.bytes(len));
        }
        if r.chance(3, 4) {
            n.fs.filesize = Some(len as u64);
        }
        size = len as u64;
    } else {
        let fan = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
        let mut s = 0;
        for _ in 0..fan {
            let (to, sz) = tree(r, nodes, depth - 1, false, reuse);
            let name = if r.chance(3, 4) { Some(vec![]) } else if r.chance(1, 2) { None } else { Some(b"x".to_vec()) };
            n.l.push(ALink { to, n: name, ts: if r.chance(3, 4) { Some(r.below(1000)) } else { None } });
            n.fs.blocksizes.push(sz);
            s += sz;
        }
        n.fs.filesize = Some(s);
        if r.chance(1, 8) {
            n.fs.data = Some(vec![]);
        }
        size = s;
    }
    n.data_first = r.chance(1, 10);
    nodes.push(n);
    let id = nodes.len() as i64;
    reuse.push((id, size));
    (id, size)
}

pub fn any_range(r: &mut Rng, size: u64) -> Option<(u64, u64)> {
    let p = |r: &mut Rng| match r.below(10) {
        0 => big(r),
        1 => size,
        2 => size + 1,
        3 => 0,
        _ => r.below(size + 2),
    };
    match r.below(6) {
        0 => None,
        1 => {
            let a = p(r);
            Some((a, a))
        }
        2 => Some((p(r), p(r))),
        _ => {
            let (a, b) = (p(r), p(r));
            Some((a.min(b), a.max(b)))
        }
    }
}

fn scn(nodes: &[ANode], root: i64, range: Option<(u64, u64)>) -> Value {
    json!({"kind": "file", "nodes": nodes_json(nodes), "root": root,
        "range": opt(range, |(a, b)| json!([u(a), u(b)]))})
}

pub fn good(r: &mut Rng) -> Value {
    loop {
        let mut nodes = vec![];
        let depth = r.range(0, 4) as u32;
        let (root, size) = tree(r, &mut nodes, depth, true, &mut vec![]);
        if nodes.len() > 60 || size > 300 {
            continue;
        }
        let range = any_range(r, size);
        return scn(&nodes, root, range);
    }
}

fn tweak(r: &mut Rng, v: u64) -> u64 {
    match r.below(6) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => big(r),
        3 => 0,
        4 => u64::MAX - v,
        _ => r.below(12),
    }
}

/// One random change of a node which can make it inconsistent.
pub fn mutate(r: &mut Rng, nodes: &mut Vec<ANode>) {
    let i = r.us(0, nodes.len() - 1);
    // prefer nodes with links
    let i = if nodes[i].l.is_empty() && r.chance(1, 2) {
        let inner: Vec<usize> = (0..nodes.len()).filter(|i| !nodes[*i].l.is_empty()).collect();
        if inner.is_empty() { i } else { *r.pick(&inner) }
    } else {
        i
    };
    let count = nodes.len() as i64;
    let n = &mut nodes[i];
    match r.below(20) {
        0 => n.fs.ty = Some(r.below(6)),
        1 => n.fs.filesize = None,
        2 | 3 => n.fs.filesize = Some(tweak(r, n.fs.filesize.unwrap_or(0))),
        4 | 5 | 6 => {
            if !n.fs.blocksizes.is_empty() {
                let k = r.us(0, n.fs.blocksizes.len() - 1);
                n.fs.blocksizes[k] = tweak(r, n.fs.blocksizes[k]);
            }
        }
        7 => {
            n.fs.blocksizes.pop();
        }
        8 => {
            let v = tweak(r, 3);
            n.fs.blocksizes.push(v)
        }
        9 => r.shuffle(&mut n.fs.blocksizes),
        10 => n.fs.hash_type = Some(*r.pick(&[0, 0x22, u64::MAX])),
        11 => n.fs.fanout = Some(*r.pick(&[0, 256, u64::MAX])),
        12 => meta(r, &mut n.fs),
        13 => {
            if !n.l.is_empty() {
                let k = r.us(0, n.l.len() - 1);
                n.l[k].to = -(r.below(6) as i64);
            }
        }
        14 => {
            let len = r.us(0, 8);
            n.fs.data = if r.chance(1, 4) { None } else { Some(r.bytes(len)) };
        }
        15 => {
            if !n.l.is_empty() {
                let k = r.us(0, n.l.len() - 1);
                n.l.remove(k);
                if r.chance(1, 2) && k < n.fs.blocksizes.len() {
                    n.fs.blocksizes.remove(k);
                }
            }
        }
        16 => {
            n.kind = match r.below(4) {
                0 => Kind::None,
                1 => Kind::Empty,
                2 => Kind::Raw(r.pick(&[vec![0xff], vec![0x08], vec![0x0a, 0x05, 1]]).clone()),
                _ => Kind::Bad(r.pick(&[vec![0xff], vec![0x0a, 0x07, 0x08], vec![0x12, 0xff, 0xff, 0xff]]).clone()),
            }
        }
        17 => {
            if !n.l.is_empty() {
                let k = r.us(0, n.l.len() - 1);
                // swap for an earlier node (keeps the DAG acyclic) or a missing block
                n.l[k].to = if i > 0 && r.chance(2, 3) { r.range(1, i as u64) as i64 } else { count + r.range(1, 6) as i64 };
            }
        }
        18 => {
            let l = n.l.len();
            if l > 1 {
                let (a, c) = (r.us(0, l - 1), r.us(0, l - 1));
                n.l.swap(a, c);
            }
        }
        _ => {
            if i > 0 {
                n.l.push(ALink { to: r.range(1, i as u64) as i64, n: None, ts: None });
                if r.chance(1, 2) {
                    n.fs.blocksizes.push(r.below(4));
                }
            }
        }
    }
}

pub fn bad(r: &mut Rng) -> Value {
    loop {
        let mut nodes = vec![];
        let depth = r.range(0, 3) as u32;
        let (root, size) = tree(r, &mut nodes, depth, true, &mut vec![]);
        if nodes.len() > 30 || size > 200 {
            continue;
        }
        for _ in 0..r.range(1, 3) {
            mutate(r, &mut nodes);
        }
        // labels are only distinct from the nodes when they are larger than all of their ids
        let range = if r.chance(1, 2) { None } else { any_range(r, size) };
        return scn(&nodes, root, range);
    }
}
