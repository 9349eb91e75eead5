//! BufferingTreeBuilder and PostOrderIterator
use super::*;
use crate::dag::{cid_of, node_json, Fs};
use crate::js::*;
use crate::model::{cid_bytes, label_cid};
use crate::obs::*;
use std::convert::TryFrom;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator, TreeBuildingFailed, TreeConstructionFailed, TreeOptions};
use unixfs_v1::{Metadata, UnixFs};

pub fn metadata(mode: &Value, mt: &Value) -> Metadata {
    let mut fs = Fs::new(crate::dag::DIR);
    fs.mode = optn(mode, |x| un(x) as u32);
    fs.mtime = optn(mt, |x| (un(&x["s"]) as i64, optn(&x["n"], |n| un(n) as u32)));
    let bytes = fs.encode();
    Metadata::from(&UnixFs::try_from(Some(&bytes[..])).unwrap())
}

pub fn failed(e: &TreeBuildingFailed) -> Value {
    use TreeBuildingFailed::*;
    let _ = format!("{} {:?}", e, e);
    let er = |name: &str, p: &String| json!({"k": "err", "e": name, "d": [b(p.as_bytes())]});
    match e {
        RootedPath(p) => er("RootedPath", p),
        RepeatSlashesInPath(p) => er("RepeatSlashesInPath", p),
        PathEndsInSlash(p) => er("PathEndsInSlash", p),
        TooManyRootLevelEntries => json!({"k": "err", "e": "TooManyRootLevelEntries", "d": []}),
        DuplicatePath(p) => er("DuplicatePath", p),
        LeafAsDirectory(p) => er("LeafAsDirectory", p),
    }
}

pub fn construction(e: &TreeConstructionFailed) -> Value {
    let _ = format!("{} {:?}", e, e);
    match e {
        TreeConstructionFailed::Protobuf(_) => json!({"k": "err", "e": "Protobuf", "d": []}),
        TreeConstructionFailed::TooLargeBlock(n) => json!({"k": "err", "e": "TooLargeBlock", "d": [u(*n)]}),
        #[allow(unreachable_patterns)]
        e => json!({"k": "err", "e": format!("{:?}", e), "d": []}),
    }
}

fn node(path: &str, cid: &libipld::Cid, ts: u64, block: &[u8]) -> Value {
    let n = node_json(block);
    json!({"k": "ok", "path": b(path.as_bytes()), "cid": b(&cid_bytes(cid)), "hash": b(&cid_bytes(&cid_of(block))),
        "ts": u(ts), "block": b(block), "size": u(block.len() as u64), "fs": n["fs"], "links": n["links"]})
}

fn step(it: &mut PostOrderIterator, owned: bool) -> Value {
    guarded(|| {
        if owned {
            match it.next() {
                None => json!({"k": "none"}),
                Some(Err(e)) => construction(&e),
                Some(Ok(n)) => node(&n.path, &n.cid, n.total_size, &n.block),
            }
        } else {
            match it.next_borrowed() {
                None => json!({"k": "none"}),
                Some(Err(e)) => construction(&e),
                Some(Ok(n)) => {
                    let _ = format!("{:?}", n);
                    node(n.path, n.cid, n.total_size, n.block)
                }
            }
        }
    })
}

pub fn run(scn: &Value) -> Vec<Value> {
    let mut labels: Vec<i64> = vec![];
    let mut cids = vec![];
    for op in arr(&scn["ops"]) {
        let to = int(&op["to"]);
        if !labels.contains(&to) {
            labels.push(to);
            cids.push(b(&cid_bytes(&label_cid(to))));
        }
    }
    let mut opts = TreeOptions::default();
    let wrap = scn["wrap"].as_bool().unwrap();
    if wrap {
        opts.wrap_with_directory();
    }
    if scn.get("dflt").is_none() {
        opts.block_size_limit(optn(&scn["limit"], un));
    }
    let mut t = vec![json!({"wrap": wrap, "limit": scn["limit"], "cids": cids, "own": scn["own"], "ops": scn["ops"]})];
    let mut bld = if !wrap && scn.get("dflt").is_some() { BufferingTreeBuilder::default() } else { BufferingTreeBuilder::new(opts) };
    for op in arr(&scn["ops"]) {
        let path = String::from_utf8(bn(&op["path"])).expect("path");
        let to = int(&op["to"]);
        let put = op["put"].as_bool().unwrap();
        let o = guarded(|| {
            let r = if put {
                bld.put_link(&path, label_cid(to), un(&op["ts"]))
            } else {
                bld.set_metadata(&path, metadata(&op["mode"], &op["mt"]))
            };
            match r {
                Ok(()) => json!({"k": "ok"}),
                Err(e) => failed(&e),
            }
        });
        let stop = o["k"] == "panic";
        t.push(if put {
            json!({"ev": "put", "path": op["path"], "to": labels.iter().position(|x| *x == to).unwrap() + 1, "ts": op["ts"], "o": o})
        } else {
            json!({"ev": "meta", "path": op["path"], "mode": op["mode"], "mt": op["mt"], "o": o})
        });
        if stop {
            return t;
        }
    }
    let mut it = bld.build();
    let own = int(&scn["own"]);
    let mut after = 0;
    for i in 0..MAX_STEPS {
        let o = step(&mut it, own == 1 || own == 2 && i % 2 == 1);
        let k = o["k"].as_str().unwrap().to_string();
        t.push(json!({"ev": "node", "o": o}));
        if k == "panic" {
            break;
        }
        if k != "ok" {
            after += 1;
            if after == 3 {
                break;
            }
        }
    }
    t
}
