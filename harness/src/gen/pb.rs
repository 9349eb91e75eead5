//! Blocks for the dag-pb helpers: encoded nodes, and mutations of them; symlink targets.
use super::file::{big, meta};
use crate::dag::*;
use crate::js::*;
use crate::model::{label_cid, cid_bytes};
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn fs(r: &mut Rng) -> Fs {
    let mut f = Fs::new(r.below(7));
    if r.chance(1, 12) {
        f.ty = None;
    }
    if r.chance(1, 2) {
        let n = *r.pick(&[0, 1, 2, 5, 120, 126, 127, 128, 140]);
        f.data = Some(r.bytes(n));
    }
    if r.chance(1, 2) {
        f.filesize = Some(if r.chance(1, 2) { big(r) } else { r.below(300) });
    }
    for _ in 0..r.below(4) {
        f.blocksizes.push(if r.chance(1, 2) { big(r) } else { r.below(300) });
    }
    if r.chance(1, 4) {
        f.hash_type = Some(*r.pick(&[0, 0x22, u64::MAX]));
    }
    if r.chance(1, 4) {
        f.fanout = Some(*r.pick(&[0, 256, u64::MAX]));
    }
    meta(r, &mut f);
    f
}

pub fn node(r: &mut Rng) -> Node {
    let mut n = Node { data_first: r.chance(1, 4), ..Default::default() };
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
        n.links.push(Link {
            hash: if r.chance(1, 8) { None } else if r.chance(1, 8) { Some(vec![1, 2]) } else { Some(cid_bytes(&label_cid(r.below(40) as i64))) },
            name: if r.chance(1, 4) { None } else { Some(r.pick(&["", "a", "file name", "ü", "AAb", "\u{1f600}"]).as_bytes().to_vec()) },
            tsize: if r.chance(1, 4) { None } else { Some(if r.chance(1, 2) { big(r) } else { r.below(300) }) },
        });
    }
    n.data = match r.below(8) {
        0 => Data::None,
        1 => Data::Raw(vec![]),
        2 => {
            let k = *r.pick(&[1, 2, 127, 128, 200]);
            Data::Raw(r.bytes(k))
        }
        _ => Data::Fs(fs(r)),
    };
    n
}

/// One change of the bytes.
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    let tags = [0x0a, 0x12, 0x18, 0x08, 0x20, 0x22, 0x2a, 0x30, 0x38, 0x42, 0x00, 0x80, 0xff, 0x7f, 0x01, 0x0d, 0x09, 0x0b, 0x0c];
    let at = r.us(0, v.len().max(1) - 1);
    match r.below(8) {
        _ if v.is_empty() => v.push(*r.pick(&tags)),
        0 => v[at] ^= 1 << r.below(8),
        1 => v[at] = *r.pick(&tags),
        2 => v.truncate(at),
        3 => v.insert(at, *r.pick(&tags)),
        4 => {
            v.remove(at);
        }
        5 => {
            // something repeated
            let end = (at + r.us(1, 12)).min(v.len());
            let s = v[at..end].to_vec();
            let to = r.us(0, v.len());
            v.splice(to..to, s);
        }
        6 => v[at] = v[at].wrapping_add(if r.chance(1, 2) { 1 } else { 255 }),
        _ => {
            // a number of some bytes more
            v[at] |= 0x80;
            let k = r.us(1, 9);
            for i in 0..k {
                v.insert(at + 1 + i, if i + 1 == k { r.below(3) as u8 } else { 0x80 });
            }
        }
    }
}

pub fn helpers(r: &mut Rng) -> Value {
    let mut v = match r.below(12) {
        0 => {
            let n = r.us(0, 20);
            r.bytes(n)
        }
        1 => {
            // two nodes one after the other are one with fields repeated
            let mut a = node(r).encode();
            a.extend(node(r).encode());
            a
        }
        _ => node(r).encode(),
    };
    if r.chance(1, 2) {
        for _ in 0..r.us(1, 3) {
            mutate(r, &mut v);
        }
    }
    json!({"kind": "pb", "block": b(&v)})
}

pub fn symlink(r: &mut Rng) -> Value {
    let mut targets = vec![];
    for _ in 0..r.us(1, 3) {
        let n = *r.pick(&[0, 1, 2, 10, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200, 255, 256]);
        let mut s = if r.chance(1, 2) { super::walk::target(r) } else { String::new() };
        while s.len() < n {
            let c = *r.pick(&['a', 'b', '/', '.', ' ', '\0', 'ü', '\u{ffff}', '\u{1f600}', '\\', '\n']);
            if s.len() + c.len_utf8() <= n || s.len() + 4 > n && c.is_ascii() {
                s.push(c);
            }
        }
        targets.push(b(s.as_bytes()));
    }
    let n = *r.pick(&[0, 0, 1, 5, 130]);
    json!({"kind": "sym", "prefix": b(&r.bytes(n)), "targets": targets})
}

/// Fields for the node types, lengths and numbers around the steps of their encoded sizes.
pub fn value(r: &mut Rng) -> Value {
    const LENS: &[usize] = &[0, 1, 2, 60, 100, 125, 126, 127, 128, 129, 250, 255, 256];
    let text = |r: &mut Rng| {
        let n = *r.pick(LENS);
        let mut s = String::new();
        while s.len() < n {
            let c = *r.pick(&['a', 'Z', '/', ' ', '\0', '\u{fc}', '\u{1f600}']);
            if s.len() + c.len_utf8() <= n {
                s.push(c);
            }
        }
        b(s.as_bytes())
    };
    let bytes = |r: &mut Rng| {
        let n = if r.chance(1, 60) { *r.pick(&[16383, 16384, 16385]) } else { *r.pick(LENS) };
        b(&r.bytes(n))
    };
    let num = |r: &mut Rng| {
        // around the powers of 2^7, as in the lengths of varints
        let p = r.below(10) * 7;
        let x = if p > 63 { u64::MAX } else { 1u64 << p };
        u(match r.below(4) {
            0 => x.wrapping_sub(1),
            1 => x.wrapping_sub(1 + r.below(3)),
            2 => x.wrapping_add(r.below(3)),
            _ => big(r),
        })
    };
    let maybe = |r: &mut Rng, v: Value| if r.chance(1, 3) { json!([]) } else { json!([v]) };
    let small = |r: &mut Rng| u(*r.pick(&[0u64, 1, 127, 128, 0o644, 16383, 16384, 1 << 21, (1 << 28) - 1, 1 << 28, u32::MAX as u64]));
    let some = |r: &mut Rng| r.chance(1, 2);
    let mut fs = json!({"k": "fs", "t": [r.below(6)], "d": [], "sz": [], "bs": [], "ht": [], "fo": [], "mode": [], "mt": []});
    if some(r) {
        fs["d"] = json!([bytes(r)]);
    }
    for k in ["sz", "ht", "fo"] {
        if some(r) {
            fs[k] = json!([num(r)]);
        }
    }
    fs["bs"] = (0..*r.pick(&[0, 0, 1, 2, 3, 20])).map(|_| num(r)).collect();
    if some(r) {
        fs["mode"] = json!([small(r)]);
    }
    if some(r) {
        let n = small(r);
        fs["mt"] = json!([{"s": num(r), "n": maybe(r, n)}]);
    }
    let links: Vec<Value> = (0..*r.pick(&[0, 0, 1, 2, 3, 8]))
        .map(|_| {
            let (h, n, ts) = (bytes(r), text(r), num(r));
            json!({"h": maybe(r, h), "n": maybe(r, n), "ts": maybe(r, ts)})
        })
        .collect();
    let d = bytes(r);
    json!({"kind": "val", "fs": fs, "links": links, "d": maybe(r, d)})
}
