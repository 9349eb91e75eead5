//! Walker
use super::*;
use crate::js::*;
use crate::obs::*;
use std::path::Path;
use unixfs_v1::walk::{ContinuedWalk, Walker};

pub fn pend(dag: &Dag, w: &Walker) -> Value {
    if !w.should_continue() {
        return json!([]);
    }
    let (first, rest) = w.pending_links();
    let mut p = vec![json!(dag.id(first))];
    p.extend(rest.map(|c| json!(dag.id(c))));
    formats(p.len(), w);
    Value::Array(p)
}

fn event(dag: &Dag, name: &RootName, c: &ContinuedWalk<'_>) -> Value {
    let base = |kind: &str, cid, p: &Path, m: Option<&unixfs_v1::Metadata>| {
        json!({"k": "ok", "kind": kind, "id": dag.id(cid), "path": name.path(p), "md": opt(m, md), "b": [], "first": true, "last": true, "fsz": []})
    };
    match c {
        ContinuedWalk::Bucket(cid, p) => base("bucket", cid, p, None),
        ContinuedWalk::Directory(cid, p, m) => base("dir", cid, p, Some(m)),
        ContinuedWalk::RootDirectory(cid, p, m) => base("root", cid, p, Some(m)),
        ContinuedWalk::Symlink(t, cid, p, m) => {
            let mut o = base("symlink", cid, p, Some(m));
            o["b"] = json!([b(t)]);
            o
        }
        ContinuedWalk::File(s, cid, p, m, sz) => {
            let mut o = base("file", cid, p, Some(m));
            o["b"] = json!([b(s.as_bytes())]);
            if s.as_ref() != s.as_bytes() {
                o["b"] = json!([b(s.as_ref()), b(s.as_bytes())]);
            }
            o["first"] = json!(s.is_first());
            o["last"] = json!(s.is_last());
            o["fsz"] = json!([u(*sz)]);
            o
        }
    }
}

/// A walk, one call at a time.
pub struct Walking<'a> {
    dag: &'a Dag,
    root: i64,
    name: RootName,
    w: Option<Walker>,
    next: i64,
    started: bool,
}

impl<'a> Walking<'a> {
    pub fn new(dag: &'a Dag, root: i64, scn: &Value) -> Self {
        Walking { dag, root, name: RootName::of(scn), w: None, next: 0, started: false }
    }
}

impl Run for Walking<'_> {
    fn step(&mut self, c: &mut Caches) -> Option<Value> {
        let dag = self.dag;
        let mut next = 0;
        if !self.started {
            self.started = true;
            let cid = dag.cids[self.root as usize - 1];
            let mut w = None;
            let o = guarded(|| {
                let x = Walker::new(cid, self.name.name.clone());
                let p = pend(dag, &x);
                next = p[0].as_i64().unwrap_or(0);
                let o = json!({"k": "ok", "cont": x.should_continue(), "pend": p});
                w = Some(x);
                o
            });
            self.w = w;
            self.next = next;
            return Some(json!({"ev": "new", "o": o}));
        }
        let mut w = self.w.take()?;
        if !w.should_continue() {
            return None;
        }
        let block = dag.block(self.next)?;
        let name = &self.name;
        let mut panicked = true;
        let o = guarded(|| {
            let mut o = match w.next(block, &mut c.visit) {
                Ok(c) => {
                    formats(block.len() / 32, &c);
                    event(dag, name, &c)
                }
                Err(e) => walk_error(&e),
            };
            o["cont"] = json!(w.should_continue());
            let p = if o["k"] == "ok" { pend(dag, &w) } else { json!([]) };
            next = p[0].as_i64().unwrap_or(0);
            o["pend"] = p;
            panicked = false;
            o
        });
        // after an error nothing is loaded anymore, whatever should_continue tells
        if !panicked && o["k"] == "ok" {
            self.w = Some(w);
            self.next = next;
        }
        Some(json!({"ev": "next", "o": o}))
    }
}
