//! Operations on a tree builder.
use crate::js::*;
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn opt_meta(r: &mut Rng) -> (Value, Value) {
    let mode = if r.chance(1, 2) { json!([u(*r.pick(&[0, 1, 0o644, 0o755, 0o7777, 0o100644, u32::MAX as u64]))]) } else { json!([]) };
    let mt = match r.below(4) {
        0 => json!([]),
        k => {
            let s = *r.pick(&[0i64, 1, -1, i64::MAX, i64::MIN, 1_600_000_000, 127, 128, 1 << 35]);
            let n = if k == 1 { json!([]) } else { json!([u(*r.pick(&[0u64, 1, 999_999_999, 1_000_000_000, 255, 256, 1 << 24, 1 << 31, u32::MAX as u64]))]) };
            json!([{"s": u(s as u64), "n": n}])
        }
    };
    (mode, mt)
}

pub fn size(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 127,
        2 => 128,
        3 => 1 << 14,
        4 => (1 << 14) - 1,
        5 if r.chance(1, 6) => *r.pick(&[1 << 63, (1 << 63) - 200, u64::MAX, u64::MAX - 100]),
        5 => r.below(1 << 56),
        6 => r.below(1 << 33),
        _ => r.below(1 << 10),
    }
}

fn paths(r: &mut Rng) -> Vec<String> {
    let mut names = super::walk::names(r);
    let k = *r.pick(&[1, 2, 2, 3, 6, 12]);
    names.truncate(k);
    if r.chance(1, 6) {
        names[0] = "p".repeat(*r.pick(&[127, 128, 129, 200, 300]));
    }
    let one_root = r.chance(1, 3);
    let depth = *r.pick(&[1, 2, 3, 4, 6]);
    let n = *r.pick(&[1, 2, 4, 8, 16, 30]);
    let mut res: Vec<String> = vec![];
    for _ in 0..n {
        let p = if !res.is_empty() && r.chance(1, 2) {
            // related to another path
            let p = r.pick(&res).clone();
            match r.below(6) {
                0 => p,
                1 => format!("{}/{}", p, r.pick(&names)),
                2 => format!("{}{}", p, r.pick(&names)),
                3 => match p.rfind('/') {
                    Some(i) => p[..i].to_string(),
                    None => p,
                },
                _ => match p.rfind('/') {
                    Some(i) => format!("{}/{}", &p[..i], r.pick(&names)),
                    None => r.pick(&names).clone(),
                },
            }
        } else {
            let d = r.us(1, depth);
            let mut v: Vec<String> = (0..d).map(|_| r.pick(&names).clone()).collect();
            if one_root {
                v[0] = names[0].clone();
            }
            v.join("/")
        };
        let p = if r.chance(1, 14) {
            match r.below(7) {
                0 => String::new(),
                1 => format!("/{}", p),
                2 => format!("{}/", p),
                3 => p.replacen('/', "//", 1),
                4 => format!("{}//{}", p, names[0]),
                5 => "/".into(),
                _ => format!("//{}/", p),
            }
        } else {
            p
        };
        res.push(p);
    }
    res
}

pub fn ops(r: &mut Rng) -> Value {
    let ps = paths(r);
    let metas = *r.pick(&[0, 1, 2, 4]);
    let many = r.chance(1, 3);
    let v: Vec<Value> = ps
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let (mode, mt) = opt_meta(r);
            let to = if many { 100 + r.below(4) } else { 100 + i as u64 };
            json!({"put": r.below(8) >= metas, "path": b(p.as_bytes()), "to": to, "ts": u(size(r)), "mode": mode, "mt": mt})
        })
        .collect();
    json!({"kind": "bld", "wrap": r.chance(1, 2), "limit": limit(r), "own": r.below(3), "ops": v})
}

fn limit(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => json!([u(if r.chance(1, 3) { r.range(0, 2) } else { r.range(0, 60) })]),
        1 => json!([u(r.range(40, 500))]),
        2 => json!([u(524_288)]),
        _ => json!([]),
    }
}

/// The limit is set to about the size of one of the blocks.
pub fn limited(r: &mut Rng) -> Value {
    let mut s = ops(r);
    s["limit"] = json!([]);
    let t = crate::exec::run(0, &s);
    let sizes: Vec<u64> = t.iter().filter(|e| e["ev"] == "node" && e["o"]["k"] == "ok").map(|e| un(&e["o"]["size"])).collect();
    if !sizes.is_empty() {
        let x = *r.pick(&sizes);
        s["limit"] = json!([u(match r.below(3) { 0 => x, 1 => x - 1, _ => x + 1 })]);
    }
    s
}

pub fn any(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => {
            let mut s = ops(r);
            s["limit"] = json!([u(524_288)]);
            s["dflt"] = json!(true);
            s
        }
        1 | 2 => limited(r),
        3 => shuffled(r),
        _ => ops(r),
    }
}

/// Consistent operations in some order (names form a tree, the leaves are distinct).
fn shuffled(r: &mut Rng) -> Value {
    let names = ["a", "b", "c", "aa", "a.", "a-"];
    let mut v = vec![];
    for i in 0..r.us(2, 14) {
        let d = r.us(1, 5);
        let mut p: Vec<String> = (1..d).map(|_| r.pick(&names).to_string()).collect();
        p.push(format!("f{}", i));
        let (mode, mt) = opt_meta(r);
        let put = r.chance(3, 4);
        v.push(json!({"put": put, "path": b(p.join("/").as_bytes()), "to": 100 + i, "ts": u(size(r)), "mode": mode, "mt": mt}));
        if r.chance(1, 4) && d > 1 {
            let (mode, mt) = opt_meta(r);
            let k = r.us(1, d - 1);
            v.push(json!({"put": false, "path": b(p[..k].join("/").as_bytes()), "to": 100 + i, "ts": u(0), "mode": mode, "mt": mt}));
        }
    }
    r.shuffle(&mut v);
    json!({"kind": "bld", "wrap": true, "limit": json!([]), "own": r.below(3), "ops": v})
}
