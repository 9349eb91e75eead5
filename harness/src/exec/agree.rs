//! A DAG is walked; all of its entries are looked up and read by the other readers.
use super::*;
use crate::js::*;
use crate::obs::*;
use unixfs_v1::dir::{resolve, MaybeResolved};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{FlatUnixFs, Metadata};

struct Entry {
    kind: &'static str,
    id: i64,
    path: Vec<u8>,
    b: Vec<u8>,
    fsz: u64,
    md: Value,
    done: bool,
}

impl Entry {
    fn json(&self) -> Value {
        json!({"kind": self.kind, "id": self.id, "path": b(&self.path), "b": b(&self.b), "fsz": u(self.fsz), "md": self.md, "done": self.done})
    }
}

/// The entries told by a walk, the buckets left out. `end`: "done", "err", "cut" or "missing".
fn walk(dag: &Dag, root: i64, name: &RootName, steps: usize, c: &mut Caches, es: &mut Vec<Entry>) -> &'static str {
    let mut w = Walker::new(dag.cids[root as usize - 1], name.name.clone());
    let mut n = 0;
    while w.should_continue() {
        n += 1;
        if n > steps {
            return "cut";
        }
        let block = match dag.block(dag.id(w.pending_links().0)) {
            Some(b) => b,
            None => return "missing",
        };
        let e = match w.next(block, &mut c.visit) {
            Ok(e) => e,
            Err(_) => return "err",
        };
        let mut entry = |kind, cid, p: &std::path::Path, m: &Metadata, b: &[u8], fsz, done| {
            es.push(Entry { kind, id: dag.id(cid), path: bn(&name.path(p)), b: b.to_vec(), fsz, md: md(m), done })
        };
        match e {
            ContinuedWalk::Bucket(..) => {}
            ContinuedWalk::Directory(cid, p, m) | ContinuedWalk::RootDirectory(cid, p, m) => entry("dir", cid, p, m, &[], 0, true),
            ContinuedWalk::Symlink(t, cid, p, m) => entry("symlink", cid, p, m, t, 0, true),
            ContinuedWalk::File(s, cid, p, m, sz) if s.is_first() => entry("file", cid, p, m, s.as_bytes(), sz, s.is_last()),
            ContinuedWalk::File(s, ..) => {
                if let Some(f) = es.last_mut() {
                    f.b.extend(s.as_bytes());
                    f.done = s.is_last();
                }
            }
        }
    }
    "done"
}

fn refused(e: &str) -> Value {
    json!({"k": "err", "e": e})
}

/// A lookup to its end.
fn look(dag: &Dag, dir: i64, needle: &str, steps: usize, c: &mut Caches) -> Value {
    let block = match dag.block(dir) {
        Some(b) => b,
        None => return json!({"k": "cut"}),
    };
    let mut r = match resolve(block, needle, &mut c.dir) {
        Ok(r) => r,
        Err(e) => return refused(resolve_error(&e, dag)["e"].as_str().unwrap_or("")),
    };
    for _ in 0..steps {
        match r {
            MaybeResolved::Found(cid) => return json!({"k": "found", "id": dag.id(&cid)}),
            MaybeResolved::NotFound => return json!({"k": "notfound"}),
            MaybeResolved::NeedToLoadMore(l) => {
                let block = match dag.block(dag.id(l.pending_links().0)) {
                    Some(b) => b,
                    None => return json!({"k": "cut"}),
                };
                r = match l.continue_walk(block, &mut c.dir) {
                    Ok(r) => r,
                    Err(e) => return refused(lookup_error(&e, dag)["e"].as_str().unwrap_or("")),
                };
            }
        }
    }
    json!({"k": "cut"})
}

/// A visit of the whole file to its end.
fn read(dag: &Dag, id: i64, steps: usize, c: &mut Caches) -> Value {
    let block = match dag.block(id) {
        Some(b) => b,
        None => return json!({"k": "cut"}),
    };
    let (mut bytes, fsz, m, mut v) = match IdleFileVisit::default().start(block) {
        Ok((bytes, fsz, m, v)) => (bytes.to_vec(), fsz, m, v),
        Err(e) => return refused(file_read_failed(&e)["e"].as_str().unwrap_or("")),
    };
    let mut n = 0;
    while let Some(x) = v {
        n += 1;
        let block = match dag.block(dag.id(x.pending_links().0)) {
            Some(b) if n < steps => b,
            _ => return json!({"k": "cut"}),
        };
        match x.continue_walk(block, &mut c.visit) {
            Ok((more, next)) => {
                bytes.extend(more);
                v = next;
            }
            Err(e) => return refused(file_read_failed(&e)["e"].as_str().unwrap_or("")),
        }
    }
    json!({"k": "ok", "b": b(&bytes), "fsz": u(fsz), "md": md(&m)})
}

/// What the node types tell of a block.
fn node(dag: &Dag, id: i64) -> Value {
    let block = match dag.block(id) {
        Some(b) => b,
        None => return json!({"k": "cut"}),
    };
    match FlatUnixFs::try_parse(block) {
        Ok(f) => json!({"k": "ok", "t": i32::from(f.data.Type), "md": md(&Metadata::from(&f.data))}),
        Err(_) => refused(""),
    }
}

/// Names to look up in the directory, a few of them not in there.
fn names(es: &[Entry], at: usize) -> Vec<String> {
    let mut v = vec![];
    let p = &es[at].path;
    let mut others = 0;
    for (i, e) in es.iter().enumerate() {
        let below = i > at && e.path.len() > p.len() && e.path.starts_with(p);
        if !below {
            if others < 2 {
                others += 1;
                v.push(String::from_utf8_lossy(e.path.rsplit(|c| *c == b'/').next().unwrap_or(&[])).into_owned());
            }
            continue;
        }
        let rest = String::from_utf8_lossy(&e.path[p.len()..]).into_owned();
        let rest = rest.trim_start_matches('/');
        let name = rest.split('/').next().unwrap_or("");
        if v.len() < 12 && !v.iter().any(|x| x == name) {
            v.push(name.to_string());
            if v.len() < 4 {
                v.push(format!("{}x", name));
                v.push(format!("0A{}", name));
                v.push(rest.to_string());
                v.push(name.chars().skip(1).collect());
            }
        }
    }
    v.extend(["".to_string(), ".".into(), "0A".into(), "zz".into()]);
    v.sort();
    v.dedup();
    v
}

pub fn run(scn: &Value) -> Vec<Value> {
    let (dag, root) = begin_dag(scn);
    let name = RootName::of(scn);
    let steps = max_steps(scn);
    let mut t = vec![json!({"root": root, "name": name.json()})];
    let mut es = vec![];
    // the caches of all of the calls, or none
    let mut c = if scn.get("cache").is_some() { Caches::fresh() } else { Caches::default() };
    let mut end = "";
    let o = guarded(|| {
        end = walk(&dag, root, &name, steps, &mut c, &mut es);
        json!({"k": "ok", "end": end})
    });
    let mut o = o;
    o["es"] = es.iter().map(|e| e.json()).collect();
    let ok = o["k"] == "ok";
    t.push(json!({"ev": "walked", "o": o}));
    if !ok || end == "cut" || end == "missing" {
        return t;
    }
    let mut n = [0; 3];
    for (i, e) in es.iter().enumerate() {
        // a walk which failed: the file it failed in
        if end != "done" && (i + 1 < es.len() || e.done) {
            continue;
        }
        let k = ["dir", "file", "symlink"].iter().position(|k| *k == e.kind).unwrap();
        n[k] += 1;
        if n[k] > 8 {
            continue;
        }
        let mut ask = |ev: &str, needle: Value, f: &mut dyn FnMut(&mut Caches) -> Value| {
            let o = guarded(|| f(&mut c));
            t.push(json!({"ev": ev, "at": i + 1, "needle": needle, "o": o}));
        };
        ask("node", json!([]), &mut |_| node(&dag, e.id));
        ask("read", json!([]), &mut |c| read(&dag, e.id, steps, c));
        if e.kind != "dir" {
            ask("look", b(b"a"), &mut |c| look(&dag, e.id, "a", steps, c));
            continue;
        }
        for s in names(&es, i) {
            ask("look", b(s.as_bytes()), &mut |c| look(&dag, e.id, &s, steps, c));
        }
    }
    if es.is_empty() {
        let o = guarded(|| read(&dag, root, steps, &mut c));
        t.push(json!({"ev": "read", "at": 0, "needle": [], "o": o}));
    }
    t
}
