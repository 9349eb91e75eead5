//! Imports
use crate::rng::Rng;
use serde_json::{json, Value};

/// Sizes of pushes; what is left afterwards is pushed at once.
fn pushes(r: &mut Rng, len: usize, cs: usize, n: usize) -> Vec<usize> {
    let style = r.below(6);
    let mut v = vec![];
    let mut left = len as i64;
    while (left > 0 || r.chance(1, 4)) && v.len() < n {
        let x = match style {
            0 => 1,
            1 => cs,
            2 => cs.saturating_sub(1).max(1),
            3 => cs + 1,
            4 => r.us(0, cs),
            _ => *r.pick(&[0, 1, cs / 2 + 1, cs, 2 * cs + 1, len]),
        };
        v.push(x);
        // at least this much is left
        left -= x as i64;
    }
    v
}

pub fn any(r: &mut Rng) -> Value {
    let big = r.chance(1, 3);
    let bf = if r.chance(1, 3) { 2 } else { r.us(2, 6) };
    let (cs, len, bf) = if !big {
        let cs = r.us(1, 6);
        (cs, r.us(0, (cs * 14).min(60)), bf)
    } else {
        match r.below(8) {
            // sizes around the lengths of varints
            0 => (*r.pick(&[126, 127, 128, 129, 255, 256]), 0, bf),
            1 => (*r.pick(&[16382, 16383, 16384, 16385]), 0, bf),
            2 => (r.us(100, 140), 0, bf),
            3 => (r.us(1, 3), 0, r.us(5, 9)),
            4 => (1, 0, *r.pick(&[100, 174, 10])),
            _ => (r.us(1, 600), 0, bf),
        }
    };
    let most = if r.chance(1, 6) { 300 } else { 40 };
    let len = if !big { len } else {
        let blocks = if cs > 5000 { r.us(1, 6) } else if bf > 9 { r.us(bf - 2, 3 * bf) } else { r.us(1, most) };
        // at and around multiples of the chunk size
        match r.below(3) { 0 => cs * blocks, 1 => cs * blocks + 1, _ => (cs * blocks).saturating_sub(r.us(1, cs)) }
    };
    let period = match r.below(4) { 0 => 1, 1 => cs, 2 => 2 * cs, _ => 4096 };
    let n = if big { 60 } else { 24 };
    let mut runs: Vec<_> = (0..r.us(2, 3)).map(|_| pushes(r, len, cs, n)).collect();
    runs[0] = if r.chance(1, 2) { vec![] } else { pushes(r, len, cs, n) };
    let mut s = json!({"kind": "add", "cs": cs, "bf": bf, "seed": r.below(1 << 20), "len": len, "period": period, "small": !big, "runs": runs});
    if r.chance(1, 5) {
        s["odd"] = json!(r.range(1, 4));
    }
    if r.chance(1, 16) {
        // a single block for any content, and a single level of links
        let which = r.below(3);
        if which != 1 { s["cs"] = json!(1 << 30); }
        if which != 0 { s["bf"] = json!(1 << 30); }
    }
    if big && r.chance(1, 200) {
        // the defaults
        s["cs"] = json!(256 * 1024);
        s["bf"] = json!(174);
        s["dflt"] = json!(true);
        s["len"] = json!(r.us(0, 1 << 20));
    }
    s
}
