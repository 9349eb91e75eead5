//! Trees of files, symlinks and directories.
use crate::js::*;
use crate::rng::Rng;
use serde_json::{json, Value};

fn entry(r: &mut Rng) -> Value {
    let (mode, mt) = super::bld::opt_meta(r);
    match r.below(8) {
        0 => json!({"kind": "dir", "c": [], "mode": mode, "mt": mt}),
        1 | 2 => {
            let t = *r.pick(&["", "..", "../x/y", "/", "\u{20ac}", "a/b/c", "target with spaces", "a\u{0}b", "."]);
            let t = match r.below(8) {
                0 => "t".repeat(*r.pick(&[119, 120, 127, 128, 129, 300])),
                1 | 2 | 3 => super::walk::target(r),
                _ => t.to_string(),
            };
            json!({"kind": "symlink", "c": b(t.as_bytes()), "mode": [], "mt": []})
        }
        _ => {
            let cs = *r.pick(&[1usize, 2, 3, 4, 7, 16, 100]);
            let bf = *r.pick(&[2, 2, 3, 4, 5, 174]);
            let blocks = r.us(0, 14);
            let n = match r.below(6) {
                0 => 0,
                1 => r.us(0, cs),
                2 => cs * blocks,
                _ => r.us(0, cs * blocks),
            };
            let c = if r.chance(1, 5) { vec![*r.pick(&[0x61, 0, 0, 0xff]); n] } else { r.bytes(n) };
            json!({"kind": "file", "c": b(&c), "cs": cs, "bf": bf, "mode": [], "mt": []})
        }
    }
}

pub fn any(r: &mut Rng) -> Value {
    let mut names = super::walk::names(r);
    let k = *r.pick(&[2, 2, 3, 4, 8, 16]);
    names.truncate(k);
    if r.chance(1, 5) {
        names[0] = "n".repeat(*r.pick(&[76, 77, 78, 79, 80, 83, 84, 85, 86, 126, 127, 128, 129, 200, 300]));
    }
    let wrap = r.chance(1, 2);
    let depth = *r.pick(&[1, 2, 3, 5, 8]);
    let n = *r.pick(&[1, 2, 3, 6, 10, 20]);
    let mut ents: Vec<(Vec<String>, Value)> = vec![];
    for _ in 0..n {
        let mut p: Vec<String> = match r.below(3) {
            // next to or below of another
            0 if !ents.is_empty() => {
                let mut p = r.pick(&ents).0.clone();
                if r.chance(2, 3) {
                    p.pop();
                }
                p.push(r.pick(&names).clone());
                p
            }
            _ => (0..r.us(1, depth)).map(|_| r.pick(&names).clone()).collect(),
        };
        if !wrap {
            p[0] = names[0].clone();
        }
        let e = entry(r);
        let dir = |e: &Value| e["kind"] == "dir";
        let clash = ents.iter().any(|(q, f)| {
            p == *q && !(dir(f) && dir(&e))
                || p.len() > q.len() && p[..q.len()] == q[..] && !dir(f)
                || q.len() > p.len() && q[..p.len()] == p[..] && !dir(&e)
        });
        if !clash {
            ents.push((p, e));
        }
    }
    let ents: Vec<Value> = ents
        .into_iter()
        .map(|(p, mut e)| {
            e["path"] = b(p.join("/").as_bytes());
            e
        })
        .collect();
    let name = super::walk::root_name(r);
    json!({"kind": "tree", "wrap": wrap, "name": b(name.as_bytes()), "ents": ents})
}
