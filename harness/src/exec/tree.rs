//! Files and symlinks put into a tree builder; the tree is walked and all of its paths are resolved.
use super::*;
use crate::js::*;
use crate::obs::*;
use libipld::Cid;
use std::collections::HashMap;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::dir::{resolve, MaybeResolved};
use unixfs_v1::symlink::serialize_symlink_block;
use unixfs_v1::walk::{ContinuedWalk, Walker};

#[derive(Default)]
struct Store {
    ids: HashMap<Cid, i64>,
    blocks: Vec<Vec<u8>>,
}

impl Store {
    fn put(&mut self, cid: &Cid, block: &[u8]) -> i64 {
        if let Some(id) = self.ids.get(cid) {
            return *id;
        }
        self.blocks.push(block.to_vec());
        self.ids.insert(*cid, self.blocks.len() as i64);
        self.blocks.len() as i64
    }
    fn id(&self, c: &Cid) -> i64 {
        self.ids.get(c).copied().unwrap_or(0)
    }
    fn get(&self, c: &Cid) -> Option<&[u8]> {
        self.ids.get(c).map(|id| &self.blocks[*id as usize - 1][..])
    }
}

/// Imports an entry: CID and total size.
fn import(e: &Value, store: &mut Store) -> (Cid, u64) {
    let c = bn(&e["c"]);
    if e["kind"] == "symlink" {
        let mut buf = vec![];
        serialize_symlink_block(std::str::from_utf8(&c).expect("target"), &mut buf);
        let cid = crate::dag::cid_of(&buf);
        store.put(&cid, &buf);
        return (cid, buf.len() as u64);
    }
    let mut a = add::adder(e);
    let (mut root, mut total, mut pos) = (None, 0, 0);
    let mut all: Vec<(Cid, Vec<u8>)> = vec![];
    // pieces of changing size
    let mut n = 1 + c.len() % 7;
    while pos < c.len() {
        let to = (pos + n).min(c.len());
        let (blocks, used) = a.push(&c[pos..to]);
        all.extend(blocks);
        assert!(used > 0, "nothing consumed");
        pos += used;
        n = n % 11 + 1;
    }
    all.extend(a.finish());
    for (cid, block) in &all {
        store.put(cid, block);
        total += block.len() as u64;
        root = Some(*cid);
    }
    (root.expect("no blocks"), total)
}

/// Resolves a name in a directory.
fn look(store: &Store, dir: &Cid, name: &str, cache: bool) -> Value {
    guarded(|| {
        let block = match store.get(dir) {
            Some(b) => b,
            None => return json!({"k": "err", "e": "Missing", "d": []}),
        };
        let mut cache = if cache { Some(std::collections::VecDeque::new().into()) } else { None };
        match resolve(block, name, &mut cache) {
            Ok(MaybeResolved::Found(c)) => json!({"k": "found", "id": store.id(&c)}),
            Ok(MaybeResolved::NotFound) => json!({"k": "notfound", "id": 0}),
            Ok(MaybeResolved::NeedToLoadMore(_)) => json!({"k": "more", "id": 0}),
            Err(e) => json!({"k": "err", "e": format!("{:?}", e).split('(').next().unwrap_or(""), "d": []}),
        }
    })
}

pub fn run(scn: &Value) -> Vec<Value> {
    let name = RootName::of(scn);
    let wrap = scn["wrap"].as_bool().unwrap();
    let mut store = Store::default();
    let mut t = vec![json!({"wrap": wrap, "name": name.json()})];
    let mut ents = vec![];
    let mut imported = vec![];
    for e in arr(&scn["ents"]) {
        let (mut id, mut at) = (0, None);
        if e["kind"] != "dir" {
            let o = guarded(|| {
                let x = import(e, &mut store);
                id = store.id(&x.0);
                at = Some(x);
                json!({"k": "ok"})
            });
            if o["k"] != "ok" {
                t[0]["ents"] = json!([]);
                t.push(json!({"ev": "import", "o": o}));
                return t;
            }
        }
        ents.push(json!({"kind": e["kind"], "c": e["c"], "id": id}));
        imported.push(at);
    }
    t[0]["ents"] = json!(ents);
    let mut opts = TreeOptions::default();
    if wrap {
        opts.wrap_with_directory();
    }
    let mut bld = BufferingTreeBuilder::new(opts);
    for (i, e) in arr(&scn["ents"]).iter().enumerate() {
        let path = String::from_utf8(bn(&e["path"])).expect("path");
        let o = guarded(|| {
            let r = match imported[i] {
                Some((cid, total)) => bld.put_link(&path, cid, total),
                None => bld.set_metadata(&path, bld::metadata(&e["mode"], &e["mt"])),
            };
            match r {
                Ok(()) => json!({"k": "ok"}),
                Err(e) => bld::failed(&e),
            }
        });
        let ok = o["k"] == "ok";
        t.push(json!({"ev": "put", "i": i + 1, "path": e["path"], "mode": e["mode"], "mt": e["mt"], "o": o}));
        if !ok {
            return t;
        }
    }
    // the last one emitted is the root, a single entry not wrapped is its own
    let mut root = imported.first().and_then(|x| *x).map(|x| x.0);
    let mut dirs: HashMap<String, Cid> = HashMap::new();
    let mut it = bld.build();
    loop {
        let o = guarded(|| match it.next_borrowed() {
            None => json!({"k": "none"}),
            Some(Ok(n)) => {
                root = Some(*n.cid);
                dirs.insert(n.path.to_string(), *n.cid);
                json!({"k": "ok", "path": b(n.path.as_bytes()), "id": store.put(n.cid, n.block)})
            }
            Some(Err(e)) => bld::construction(&e),
        });
        let ok = o["k"] == "ok";
        t.push(json!({"ev": "node", "o": o}));
        if !ok {
            break;
        }
    }
    let root = match root {
        Some(r) => r,
        None => return t,
    };
    // the walk
    let mut w = Walker::new(root, name.name.clone());
    let mut cache = if wrap { Some(Default::default()) } else { None };
    t.push(json!({"ev": "start", "o": {"k": "ok", "id": store.id(w.pending_links().0), "cont": w.should_continue()}}));
    while w.should_continue() && t.len() < MAX_STEPS * 2 {
        let o = guarded(|| {
            let block = match store.get(w.pending_links().0) {
                Some(b) => b,
                None => return json!({"k": "err", "e": "Missing", "d": []}),
            };
            let o = match w.next(block, &mut cache) {
                Ok(c) => walked(&store, &name, &c),
                Err(e) => return walk_error(&e),
            };
            let mut o = o;
            o["cont"] = json!(w.should_continue());
            o
        });
        let ok = o["k"] == "ok";
        t.push(json!({"ev": "next", "o": o}));
        if !ok {
            break;
        }
    }
    // every path, component by component
    for (i, e) in arr(&scn["ents"]).iter().enumerate() {
        let path = String::from_utf8(bn(&e["path"])).expect("path");
        let mut at = root;
        let comps: Vec<&str> = path.split('/').collect();
        for k in 0..comps.len() {
            if k == 0 && !wrap {
                continue;
            }
            let o = look(&store, &at, comps[k], (i + k) % 2 == 0);
            let dir: Vec<Value> = comps[..k].iter().map(|s| b(s.as_bytes())).collect();
            let found = store.ids.iter().find(|(_, id)| **id == o["id"].as_i64().unwrap_or(0)).map(|x| *x.0);
            t.push(json!({"ev": "res", "dir": dir, "needle": b(comps[k].as_bytes()), "o": o}));
            match found {
                Some(c) => at = c,
                None => break,
            }
        }
    }
    // other names
    let mut names: Vec<String> = vec![String::new(), ".".into(), "..".into()];
    for e in arr(&scn["ents"]) {
        for s in String::from_utf8(bn(&e["path"])).unwrap().split('/') {
            names.push(s.to_string());
            names.push(format!("{}a", s));
            names.push(s.chars().skip(1).collect());
        }
    }
    names.sort();
    names.dedup();
    let mut ds: Vec<_> = dirs.into_iter().collect();
    ds.sort();
    for (i, n) in names.iter().take(30).enumerate() {
        if let Some((p, cid)) = ds.get(i % ds.len().max(1)) {
            let dir: Vec<Value> = if p.is_empty() { vec![] } else { p.split('/').map(|s| b(s.as_bytes())).collect() };
            t.push(json!({"ev": "res", "dir": dir, "needle": b(n.as_bytes()), "o": look(&store, cid, n, i % 2 == 0)}));
        }
    }
    t
}

fn walked(store: &Store, name: &RootName, c: &ContinuedWalk<'_>) -> Value {
    let base = |kind: &str, cid: &Cid, p: &std::path::Path, m: Option<&unixfs_v1::Metadata>| {
        json!({"k": "ok", "kind": kind, "id": store.id(cid), "path": name.path(p), "md": opt(m, md),
            "b": [], "first": true, "last": true, "fsz": []})
    };
    match c {
        ContinuedWalk::Bucket(cid, p) => base("bucket", cid, p, None),
        ContinuedWalk::Directory(cid, p, m) => base("dir", cid, p, Some(m)),
        ContinuedWalk::RootDirectory(cid, p, m) => base("root", cid, p, Some(m)),
        ContinuedWalk::Symlink(t, cid, p, m) => {
            let mut o = base("symlink", cid, p, Some(m));
            o["b"] = json!([b(t)]);
            o
        }
        ContinuedWalk::File(s, cid, p, m, sz) => {
            let mut o = base("file", cid, p, Some(m));
            o["b"] = json!([b(s.as_ref())]);
            o["first"] = json!(s.is_first());
            o["last"] = json!(s.is_last());
            o["fsz"] = json!([u(*sz)]);
            o
        }
    }
}
