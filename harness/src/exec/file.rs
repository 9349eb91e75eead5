//! IdleFileVisit / FileVisit
use super::*;
use crate::js::*;
use crate::obs::*;
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::Metadata;

pub fn pend(dag: &Dag, v: &FileVisit) -> Value {
    let (first, rest) = v.pending_links();
    let mut p = vec![json!(dag.id(first))];
    p.extend(rest.map(|c| json!(dag.id(c))));
    formats(p.len(), v);
    Value::Array(p)
}

fn next_id(dag: &Dag, v: &FileVisit) -> i64 {
    dag.id(v.pending_links().0)
}

fn step(dag: &Dag, bytes: &[u8], v: Option<&FileVisit>, fsz: Option<u64>, m: Option<&Metadata>) -> Value {
    let mut sizes = vec![];
    sizes.extend(fsz.map(u));
    sizes.extend(v.map(|v| u(v.file_size())));
    let mut mds = vec![];
    mds.extend(m.map(md));
    mds.extend(v.map(|v| md(v.as_ref())));
    json!({"k": "ok", "b": b(bytes), "pend": opt(v, |v| pend(dag, v)), "fsz": sizes, "md": mds})
}

pub fn range_of(scn: &Value) -> Option<std::ops::Range<u64>> {
    optn(&scn["range"], |r| un(&r[0])..un(&r[1]))
}

/// A visit, one call at a time.
pub struct Visiting<'a> {
    dag: &'a Dag,
    root: i64,
    range: Option<std::ops::Range<u64>>,
    visit: Option<FileVisit>,
    started: bool,
}

impl<'a> Visiting<'a> {
    pub fn new(dag: &'a Dag, root: i64, scn: &Value) -> Self {
        Visiting { dag, root, range: range_of(scn), visit: None, started: false }
    }
}

impl Run for Visiting<'_> {
    fn step(&mut self, c: &mut Caches) -> Option<Value> {
        let dag = self.dag;
        let mut visit: Option<FileVisit> = None;
        if !self.started {
            self.started = true;
            let mut idle = IdleFileVisit::default();
            if let Some(r) = self.range.clone() {
                idle = idle.with_target_range(r);
            }
            let block = dag.block(self.root).unwrap();
            formats(0, &idle);
            let o = guarded(|| match idle.start(block) {
                Ok((bytes, fsz, m, v)) => {
                    let o = step(dag, bytes, v.as_ref(), Some(fsz), Some(&m));
                    visit = v;
                    o
                }
                Err(e) => file_read_failed(&e),
            });
            self.visit = visit;
            return Some(json!({"ev": "start", "o": o}));
        }
        let v = self.visit.take()?;
        let id = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| next_id(dag, &v))).ok()?;
        let block = dag.block(id)?;
        let o = guarded(|| match v.continue_walk(block, &mut c.visit) {
            Ok((bytes, v)) => {
                let o = step(dag, bytes, v.as_ref(), None, None);
                visit = v;
                o
            }
            Err(e) => file_read_failed(&e),
        });
        self.visit = visit;
        Some(json!({"ev": "cont", "o": o}))
    }
}
