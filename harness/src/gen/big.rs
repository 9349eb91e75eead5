//! Few but large scenarios: sizes beyond 32 bits, many links, long names, deep trees.
use super::file::{meta, nodes_json};
use crate::dag::*;
use crate::js::*;
use crate::model::*;
use crate::rng::Rng;
use serde_json::{json, Value};

fn leaf(r: &mut Rng, n: usize) -> ANode {
    let mut x = ANode::new(if r.chance(1, 2) { RAW } else { FILE });
    if n > 0 {
        x.fs.data = Some(r.bytes(n));
    }
    x.fs.filesize = Some(n as u64);
    x
}

fn inner(r: &mut Rng, nodes: &[ANode], to: &[i64]) -> ANode {
    let mut x = ANode::new(if r.chance(1, 4) { RAW } else { FILE });
    for t in to {
        x.l.push(ALink { to: *t, n: Some(vec![]), ts: Some(1) });
        x.fs.blocksizes.push(nodes[*t as usize - 1].fs.filesize.unwrap());
    }
    x.fs.filesize = Some(x.fs.blocksizes.iter().sum());
    x
}

fn name(r: &mut Rng, i: usize) -> String {
    let n = *r.pick(&[1, 1, 1, 8, 8, 60, 127, 128, 255, 256, 300, 1000]);
    let mut s = format!("{}", i);
    while s.len() < n {
        s.push(*r.pick(&['a', 'z', 'ü', ' ', '.']));
    }
    s
}

pub fn file(r: &mut Rng) -> Value {
    let mut nodes: Vec<ANode> = vec![];
    let mut wide = false;
    match r.below(5) {
        // the same blocks again and again: sizes up to 2^63
        0 | 1 => {
            for _ in 0..r.us(1, 3) {
                let n = r.us(1, 40);
                let x = leaf(r, n);
                nodes.push(x);
            }
            let depth = r.us(6, 60);
            for _ in 0..depth {
                let k = nodes.len() as i64;
                let prev = |r: &mut Rng| if r.chance(2, 3) { k } else { r.range(1.max(k - 3) as u64, k as u64) as i64 };
                let to: Vec<i64> = (0..r.us(1, 4)).map(|_| prev(r)).collect();
                if to.iter().map(|t| nodes[*t as usize - 1].fs.filesize.unwrap() as u128).sum::<u128>() >= 1 << 63 {
                    break;
                }
                let x = inner(r, &nodes, &to);
                nodes.push(x);
            }
        }
        // many links
        2 => {
            let n = r.us(1, 12);
            for _ in 0..n {
                let len = *r.pick(&[0, 1, 2, 100, 127, 128, 129, 300]);
                let x = leaf(r, len);
                nodes.push(x);
            }
            let fan = *r.pick(&[120, 127, 128, 174, 175, 256, 300]);
            let to: Vec<i64> = (0..fan).map(|_| r.range(1, n as u64) as i64).collect();
            let x = inner(r, &nodes, &to);
            nodes.push(x);
        }
        // so many links that only the last of them can be visited
        3 => {
            for len in [1, 2, 3] {
                let x = leaf(r, len);
                nodes.push(x);
            }
            let fan = *r.pick(&[520, 600, 1030, 1100]);
            let to: Vec<i64> = (0..fan).map(|_| r.range(1, 3) as i64).collect();
            let x = inner(r, &nodes, &to);
            nodes.push(x);
            wide = true;
        }
        // long blocks
        _ => {
            for len in [5000, 16383, 16384] {
                let x = leaf(r, len);
                nodes.push(x);
            }
            let x = inner(r, &nodes, &[1, 2, 3, 1]);
            nodes.push(x);
        }
    }
    let root = nodes.len();
    if r.chance(1, 2) {
        meta(r, &mut nodes[root - 1].fs);
    }
    let size = nodes[root - 1].fs.filesize.unwrap();
    let around = |r: &mut Rng| {
        let p = match r.below(10) {
            0 | 8 | 9 => 1 << 32,
            1 => 1 << 31,
            2 => size,
            3 => size / 2,
            4 => 1 << 24,
            5 => 1 << r.below(62),
            _ => r.below(size + 1),
        };
        p.wrapping_add(r.below(4)).saturating_sub(r.below(4)).min(size + 2)
    };
    let range = if wide {
        let a = size - r.range(1, 20);
        Some((a, *r.pick(&[size, size + 1, u64::MAX, a + 3])))
    } else if r.chance(1, 8) { None } else {
        let a = around(r);
        match r.below(8) {
            0 => Some((a, size + r.below(3))),
            1 => Some((a, u64::MAX)),
            2 => Some((a, a)),
            3 => Some((a, around(r))),
            4 => Some((a, a.saturating_add(r.below(60)))),
            _ => Some((a, a.saturating_add(r.below(8)))),
        }
    };
    json!({"kind": "file", "nodes": nodes_json(&nodes), "root": root, "steps": 120,
        "range": opt(range, |(a, b)| json!([u(a), u(b)]))})
}

fn dir_link(to: i64, n: String) -> ALink {
    ALink { to, n: Some(n.into_bytes()), ts: Some(1) }
}

fn hamt(r: &mut Rng) -> ANode {
    let mut n = ANode::new(HAMT);
    n.fs.hash_type = Some(34);
    n.fs.fanout = Some(256);
    if r.chance(1, 2) {
        n.fs.data = Some(r.bytes(32));
    }
    n
}

pub fn walk(r: &mut Rng) -> Value {
    let mut nodes: Vec<ANode> = vec![];
    let mut bytes = leaf(r, 3);
    meta(r, &mut bytes.fs);
    nodes.push(bytes);
    let mut sym = ANode::new(SYMLINK);
    let n = *r.pick(&[0, 3, 127, 128, 300]);
    sym.fs.data = Some(r.bytes(n));
    meta(r, &mut sym.fs);
    nodes.push(sym);
    let small = ANode::new(DIR);
    nodes.push(small);
    nodes.push({
        let l = leaf(r, 2);
        l
    });
    let parts: Vec<i64> = (0..r.us(1, 5)).map(|_| 4).collect();
    let f = inner(r, &nodes, &parts);
    nodes.push(f);
    let entries = [1, 2, 3, 5];
    let mut steps = 140;
    if r.chance(1, 2) {
        // a deep tree
        let depth = r.us(20, 90);
        // how often there are entries besides the directory below
        let every = *r.pick(&[3, 3, 20, 60]);
        for i in 0..depth {
            let below = nodes.len() as i64;
            let sharded = r.chance(1, 3);
            let mut n = if sharded { hamt(r) } else { ANode::new(DIR) };
            meta(r, &mut n.fs);
            let mut k = 0;
            let mut link = |r: &mut Rng, to: i64, n: &mut ANode, bucket: bool| {
                k += 1;
                let s: String = name(r, i * 10 + k).chars().take(if i % 16 == 0 { 300 } else { 20 }).collect();
                n.l.push(if bucket { dir_link(to, format!("{:02X}", k)) } else if sharded { dir_link(to, format!("{:02X}{}", k, s)) } else { dir_link(to, s) });
            };
            let is_shard = nodes[below as usize - 1].fs.ty == Some(HAMT);
            if r.chance(1, every) {
                let e = *r.pick(&entries);
                link(r, e, &mut n, false);
            }
            let bucket = sharded && is_shard && r.chance(2, 3);
            link(r, below, &mut n, bucket);
            if r.chance(1, every) {
                let e = *r.pick(&entries);
                link(r, e, &mut n, false);
            }
            nodes.push(n);
        }
    } else {
        // a wide one
        let fan = *r.pick(&[60, 100, 128, 130, 300]);
        steps = if fan > 200 { 20 } else { 140 };
        let sharded = r.chance(1, 2);
        let mut n = if sharded { hamt(r) } else { ANode::new(DIR) };
        meta(r, &mut n.fs);
        for i in 0..fan {
            let s = name(r, i);
            n.l.push(dir_link(*r.pick(&entries), if sharded { format!("{:02X}{}", i % 256, s) } else { s }));
        }
        nodes.push(n);
    }
    let root = nodes.len();
    let root_name = super::walk::root_name(r);
    json!({"kind": "walk", "nodes": nodes_json(&nodes), "root": root, "name": b(root_name.as_bytes()), "steps": steps})
}

pub fn lookup(r: &mut Rng) -> Value {
    let mut nodes: Vec<ANode> = vec![];
    let mut names: Vec<String> = vec![];
    let mut fresh = 0;
    let mut entry = |r: &mut Rng, names: &mut Vec<String>| {
        fresh += 1;
        let s = name(r, fresh);
        names.push(s.clone());
        s
    };
    if r.chance(1, 16) {
        // more shards left to search than the fanout
        let count = r.us(258, 270);
        let empty = hamt(r);
        nodes.push(empty);
        let mut last = hamt(r);
        let s = entry(r, &mut names);
        last.l.push(dir_link(1000, format!("AB{}", s)));
        nodes.push(last);
        let mut n = hamt(r);
        for i in 0..count {
            n.l.push(dir_link(if i + 1 == count { 2 } else { 1 }, format!("{:02X}", i % 256)));
        }
        nodes.push(n);
    } else if r.chance(1, 2) {
        let sharded = r.chance(1, 2);
        let mut n = if sharded { hamt(r) } else { ANode::new(DIR) };
        let count = *r.pick(&[130, 256, 257, 300, 600, 600, 1100, 1100]);
        for i in 0..count {
            let s = if count > 300 { i.to_string() } else { name(r, i as usize) };
            names.push(s.clone());
            n.l.push(dir_link(1000 + i, if sharded { format!("{:02X}{}", i % 256, s) } else { s }));
        }
        if r.chance(1, 4) {
            // one of them twice
            let s = r.pick(&names).clone();
            n.l.push(dir_link(*r.pick(&[999, 999, 0, -2]), if sharded { format!("AB{}", s) } else { s }));
        }
        nodes.push(n);
    } else {
        let chain = r.chance(1, 2);
        let count = r.us(10, 50);
        let mut free: Vec<i64> = vec![];
        for c in 0..count {
            let mut n = hamt(r);
            for _ in 0..r.us(0, 2) {
                let s = entry(r, &mut names);
                n.l.push(dir_link(1000 + names.len() as i64, format!("AB{}", s)));
            }
            if c == 0 || (!chain && c + 1 < count && r.chance(1, 2)) {
                // distinct leaves of the tree of shards
                n.l.push(dir_link(1000 + names.len() as i64, format!("00x{}", c)));
            } else {
                let k = if chain || c + 1 == count { free.len() } else { r.us(0, free.len()) };
                for _ in 0..k {
                    n.l.push(dir_link(free.remove(0), format!("{:02X}", r.below(256))));
                }
            }
            nodes.push(n);
            free.push(c as i64 + 1);
        }
    }
    let needle = match r.below(6) {
        0 => "missing".to_string(),
        1 => names.first().cloned().unwrap_or_default(),
        2 | 3 => names.last().cloned().unwrap_or_default(),
        _ => if names.is_empty() { String::new() } else { r.pick(&names).clone() },
    };
    let root = nodes.len();
    json!({"kind": "res", "nodes": nodes_json(&nodes), "root": root, "needle": b(needle.as_bytes()), "own": r.chance(1, 3)})
}

pub fn builder(r: &mut Rng) -> Value {
    let mut v = vec![];
    let mut op = |r: &mut Rng, i: usize, p: String| {
        let (mode, mt) = super::bld::opt_meta(r);
        let put = r.chance(7, 8);
        let ts = super::bld::size(r);
        v.push(json!({"put": put, "path": b(p.as_bytes()), "to": 10_000 + (i % 50), "ts": u(ts), "mode": mode, "mt": mt}));
    };
    let shape = r.below(12);
    if shape == 0 {
        // a directory around the default size limit
        let limit = 512 * 1024;
        let mut n = Node { data: Data::Fs(Fs::new(DIR)), ..Default::default() };
        for i in 0..8u8 {
            n.links.push(Link { hash: Some(cid_bytes(&label_cid(10_000 + i as i64))), name: Some(vec![b'a' + i; 65_000]), tsize: Some(1 << 20) });
        }
        let more = limit + r.us(0, 3) - 1 - n.encode().len();
        if let Some(x) = &mut n.links[7].name {
            x.resize(x.len() + more, b'x');
        }
        for (i, l) in n.links.iter().enumerate() {
            let s = String::from_utf8(l.name.clone().unwrap()).unwrap();
            op(r, i, format!("d/{}", s));
        }
        r.shuffle(&mut v);
        for o in v.iter_mut() {
            o["ts"] = u(1 << 20);
            o["put"] = json!(true);
        }
        return json!({"kind": "bld", "wrap": r.chance(1, 2), "dflt": true, "limit": [u(512 * 1024)], "own": r.below(3), "ops": v});
    }
    match shape % 3 {
        // one large directory
        0 => {
            let n = *r.pick(&[60, 127, 130, 200, 257, 270, 300]);
            for i in 0..n {
                let s = if n > 200 { i.to_string() } else { name(r, i) };
                let p = if r.chance(1, 8) { format!("d/{}/x", s) } else { format!("d/{}", s) };
                op(r, i, p);
            }
        }
        // deep
        1 => {
            let mut p = String::from("d");
            for i in 0..r.us(20, 70) {
                let s: String = name(r, i).chars().take(if i % 16 == 0 { 300 } else { 20 }).collect();
                if r.chance(1, 2) {
                    op(r, i, format!("{}/f{}", p, s));
                }
                p = format!("{}/{}", p, s);
            }
            op(r, 1, p);
        }
        // many directories
        _ => {
            for i in 0..r.us(50, 120) {
                let (x, y) = (r.below(7), r.below(5));
                op(r, i, format!("d/{}/{}/{}", x, y, i));
            }
        }
    }
    r.shuffle(&mut v);
    json!({"kind": "bld", "wrap": r.chance(1, 2), "limit": [], "own": r.below(3), "ops": v})
}

pub fn symlink(r: &mut Rng) -> Value {
    let n = *r.pick(&[16_370, 16_376, 16_377, 16_378, 16_379, 16_380, 16_381, 16_382, 16_383, 16_384, 16_385]);
    let t = vec![b'a' + r.below(26) as u8; n];
    let k = r.us(0, 40);
    json!({"kind": "sym", "prefix": b(&r.bytes(k)), "targets": [b(&t)]})
}

pub fn import(r: &mut Rng) -> Value {
    if r.chance(1, 4) {
        // many leaves
        let (cs, bf) = (r.us(1, 3), *r.pick(&[2, 3, 10, 33, 174, 300, 520, 600, 1030]));
        let len = cs * r.us(500, 1300) - r.us(0, 2);
        let runs = vec![vec![], vec![cs + 1; 40]];
        return json!({"kind": "add", "cs": cs, "bf": bf, "seed": r.below(1 << 20), "len": len, "period": 4096, "small": false, "runs": runs});
    }
    let len = match r.below(6) {
        0 => r.us(0, 1 << 16),
        1 => (1 << 21) + r.us(0, 300) - 100,
        2 => (1 << 18) * r.us(1, 12),
        3 => (1 << 18) * r.us(1, 12) + 1,
        _ => r.us(1, 5 << 20),
    };
    let (cs, bf, dflt) = match r.below(3) {
        0 => (262_144, 174, true),
        1 => (*r.pick(&[65_535, 65_536, 100_000, 1 << 20]), r.us(2, 4), false),
        _ => (262_144, r.us(2, 4), false),
    };
    let pushes = |r: &mut Rng| -> Vec<usize> {
        let x = *r.pick(&[4096, 65_536, 262_143, 262_144, 262_145, 1 << 20, 8 << 20]);
        (0..(len / x + 1).min(400)).map(|_| x).collect()
    };
    let runs = vec![vec![], pushes(r)];
    let mut s = json!({"kind": "add", "cs": cs, "bf": bf, "seed": r.below(1 << 20), "len": len, "period": *r.pick(&[1usize, 4096, 1 << 20]), "small": false, "runs": runs});
    if dflt {
        s["dflt"] = json!(true);
    }
    s
}

/// Long blocks for the dag-pb helpers.
pub fn helpers(r: &mut Rng) -> Value {
    let mut n = super::pb::node(r);
    let len = *r.pick(&[16_370, 16_383, 16_384, 20_000, 32_767, 32_768, 65_520, 65_535, 65_536, 70_000]);
    n.data = if r.chance(1, 2) { Data::Raw(r.bytes(len)) } else {
        let mut f = super::pb::fs(r);
        f.data = Some(r.bytes(len));
        Data::Fs(f)
    };
    let mut v = n.encode();
    if r.chance(1, 8) {
        v.pop();
    }
    json!({"kind": "pb", "block": b(&v)})
}

/// Long values for the node types.
pub fn value(r: &mut Rng) -> Value {
    let mut s = super::pb::value(r);
    let len = *r.pick(&[16_370, 16_383, 16_384, 32_768, 65_535, 65_536, 70_000]);
    let x = b(&vec![b'a' + r.below(26) as u8; len]);
    match r.below(4) {
        0 => s["fs"]["d"] = json!([x]),
        1 => s["d"] = json!([x]),
        k => s["links"] = json!([{"h": if k == 2 { json!([x]) } else { json!([]) }, "n": if k == 3 { json!([x]) } else { json!([]) }, "ts": []}]),
    }
    s
}
