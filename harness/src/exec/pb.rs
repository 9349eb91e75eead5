//! dagpb helpers, FlatUnixFs and serialize_symlink_block
use super::*;
use crate::dag::cid_of;
use crate::js::*;
use crate::obs::*;
use std::borrow::Cow;
use unixfs_v1::dagpb::{node_data, wrap_node_data, NodeData};
use unixfs_v1::symlink::serialize_symlink_block;
use unixfs_v1::walk::{ContinuedWalk, Walker};

fn pb_err() -> Value {
    json!({"k": "err", "e": "Protobuf", "d": []})
}

/// `moved` gets the block out of the wrapper.
fn wrapped<T: AsRef<[u8]>>(block: T, how: &str, t: &mut Vec<Value>) {
    let o = guarded(|| match wrap_node_data(block) {
        Err(_) => pb_err(),
        Ok(n) => {
            let n: Box<NodeData<T>> = Box::new(n); // moved elsewhere
            let d = n.node_data().to_vec();
            let _ = format!("{:?}", n);
            let eq = *n == d && *n == &d[..] && !(*n == [&d[..], &[1]].concat());
            let inner = b(n.get_ref().as_ref());
            json!({"k": "ok", "d": b(&d), "inner": inner, "eq": eq, "into": b(n.into_inner().as_ref())})
        }
    });
    t.push(json!({"ev": "wrap", "how": how, "o": o}));
}

pub fn run(scn: &Value) -> Vec<Value> {
    let block = bn(&scn["block"]);
    let mut t = vec![json!({"block": scn["block"]})];
    let o = guarded(|| match node_data(&block) {
        Ok(d) => json!({"k": "ok", "d": opt(d, b)}),
        Err(_) => pb_err(),
    });
    t.push(json!({"ev": "data", "o": o}));
    wrapped(&block[..], "slice", &mut t);
    wrapped(block.clone(), "vec", &mut t);
    match block.len() % 4 {
        0 => wrapped(block.clone().into_boxed_slice(), "box", &mut t),
        1 => wrapped(Cow::Owned::<[u8]>(block.clone()), "cow", &mut t),
        2 => wrapped(std::rc::Rc::<[u8]>::from(&block[..]), "rc", &mut t),
        _ => wrapped(&block, "ref", &mut t),
    }
    // the bytes are moved with the wrapper
    macro_rules! arrays {
        ($($n:literal)*) => {
            $(if block.len() == $n {
                let mut a = [0u8; $n];
                a.copy_from_slice(&block);
                wrapped(a, "array", &mut t);
            })*
        };
    }
    arrays!(0 1 2 3 4 5 6 7 8 10 12 16 24 32);
    val::reading(&block, &mut t);
    t
}

pub fn symlink(scn: &Value) -> Vec<Value> {
    let mut buf = bn(&scn["prefix"]);
    let mut t = vec![json!({"prefix": scn["prefix"]})];
    for target in arr(&scn["targets"]) {
        let s = String::from_utf8(bn(target)).expect("target");
        let before = buf.len();
        let mut end = false;
        let o = guarded(|| {
            serialize_symlink_block(&s, &mut buf);
            json!({"k": "ok", "buf": b(&buf)})
        });
        end |= o["k"] != "ok" || buf.len() < before;
        t.push(json!({"ev": "sym", "target": target, "o": o}));
        if end {
            break;
        }
        let block = &buf[before..];
        let o = guarded(|| {
            let mut w = Walker::new(cid_of(block), "l".into());
            let r = match w.next(block, &mut None) {
                Ok(ContinuedWalk::Symlink(x, ..)) => json!({"k": "ok", "target": b(x)}),
                Ok(_) => json!({"k": "err", "e": "Kind", "d": []}),
                Err(e) => walk_error(&e),
            };
            r
        });
        t.push(json!({"ev": "read", "target": target, "o": o}));
    }
    t
}
