//! Histories of visits, walks and lookups sharing caches.
use super::*;
use serde_json::json;

fn one(r: &mut Rng) -> Value {
    match r.below(13) {
        0 | 1 => super::file::good(r),
        2 => super::file::bad(r),
        3 | 4 | 5 => super::walk::good(r),
        6 => super::walk::bad(r),
        7 => super::res::plain(r),
        8 | 9 | 10 => super::res::shards(r),
        _ => super::raw::any(r),
    }
}

/// The scenario with one of its links naming something which is not a CID, rather a later one.
fn spoil(r: &mut Rng, scn: &mut Value) {
    let root = scn["root"].as_i64().unwrap_or(0);
    let nodes = scn["nodes"].as_array_mut().unwrap();
    let linking: Vec<usize> = (0..nodes.len()).filter(|i| !nodes[*i]["l"].as_array().unwrap().is_empty()).collect();
    if linking.is_empty() {
        return;
    }
    let i = if r.chance(1, 2) && linking.contains(&(root as usize - 1)) { root as usize - 1 } else { *r.pick(&linking) };
    let l = nodes[i]["l"].as_array_mut().unwrap();
    let n = l.len();
    let k = if r.chance(1, 2) { n - 1 } else { r.us(0, n - 1) };
    l[k]["to"] = json!(-(r.below(6) as i64));
}

pub fn any(r: &mut Rng) -> Value {
    if r.chance(1, 3) {
        return failing(r);
    }
    let n = r.us(2, 5);
    let mut runs: Vec<Value> = vec![];
    while runs.len() < n {
        // the same again, or of the same kind
        let s = match r.below(5) {
            0 if !runs.is_empty() => r.pick(&runs).clone(),
            _ => one(r),
        };
        if s.get("nodes").map(|n| n.as_array().unwrap().len()).unwrap_or(0) < 40 {
            runs.push(s);
        }
    }
    let mut sched = vec![[0, 3]];
    let mode = |r: &mut Rng| if r.chance(1, 8) { r.range(1, 3) } else { 0 };
    if r.chance(1, 2) {
        // one after the other, most of them to their end
        for k in 0..n {
            let steps = if r.chance(1, 3) { r.us(1, 5) } else { 60 };
            for _ in 0..steps {
                sched.push([k as u64, mode(r)]);
            }
        }
    } else {
        for _ in 0..r.us(4, 60) {
            sched.push([r.below(n as u64), mode(r)]);
        }
        for k in 0..n {
            for _ in 0..if r.chance(1, 2) { 40 } else { 0 } {
                sched.push([k as u64, mode(r)]);
            }
        }
    }
    json!({"kind": "hist", "runs": runs, "sched": sched})
}

/// Runs which fail, or are given up, between others, all of them with the same caches.
fn failing(r: &mut Rng) -> Value {
    let mut runs: Vec<Value> = vec![];
    let mut sched = vec![[0, 3]];
    let n = r.us(2, 6);
    while runs.len() < n {
        let mut s = match r.below(6) {
            0 | 1 => super::walk::good(r),
            2 => super::res::shards(r),
            _ => super::file::good(r),
        };
        if s["kind"] == "file" && r.chance(1, 2) {
            // a file is walked with the same caches from its first block on
            s = json!({"kind": "walk", "nodes": s["nodes"], "root": s["root"], "name": []});
        }
        let nodes = s["nodes"].as_array().unwrap().len();
        if nodes >= 30 || (nodes < 2 && r.chance(3, 4)) {
            continue;
        }
        if r.chance(1, 2) {
            spoil(r, &mut s);
            if s["kind"] == "file" && r.chance(1, 2) {
                s["range"] = json!([]);
            }
        }
        let steps = if r.chance(1, 4) { r.us(1, 4) } else { 40 };
        for _ in 0..steps {
            sched.push([runs.len() as u64, if r.chance(1, 20) { 1 } else { 0 }]);
        }
        runs.push(s);
    }
    json!({"kind": "hist", "runs": runs, "sched": sched})
}
