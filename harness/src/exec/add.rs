//! FileAdder: the same content with several ways to push it, and reading the blocks back.
use super::*;
use crate::dag::{cid_of, node_json, read_node, Data};
use crate::js::*;
use crate::obs::*;
use libipld::Cid;
use std::collections::HashMap;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};

/// Content of a scenario: given bytes, or a pseudorandom sequence of some period.
pub fn content(scn: &Value) -> Vec<u8> {
    if let Some(c) = scn.get("c") {
        return bn(c);
    }
    let (len, seed, period) = (int(&scn["len"]) as usize, int(&scn["seed"]) as u64, int(&scn["period"]) as usize);
    let mut p = crate::rng::Rng::new(seed).bytes(period.max(1));
    // contents with something odd about them: nothing but zeroes, long runs of them, runs of ones
    match scn["odd"].as_u64() {
        Some(1) => p.iter_mut().for_each(|b| *b = 0),
        Some(2) => p.iter_mut().enumerate().for_each(|(i, b)| *b *= (i % 97 == 0) as u8),
        Some(3) => p.iter_mut().for_each(|b| *b = 0xff),
        Some(4) => p.iter_mut().for_each(|b| *b = b"\n\r \t\x00"[*b as usize % 5]),
        _ => {}
    }
    (0..len).map(|i| p[i % p.len()]).collect()
}

/// Blocks emitted so far, by CID; ids count from 1.
#[derive(Default)]
pub struct Emitted {
    pub ids: HashMap<Cid, i64>,
    pub blocks: Vec<Vec<u8>>,
    pub cids: Vec<Cid>,
}

impl Emitted {
    pub fn id(&self, c: &Cid) -> i64 {
        self.ids.get(c).copied().unwrap_or(0)
    }
    /// Description of an emitted block; `off` is the amount of content in the leaves before it.
    fn add(&mut self, cid: Cid, block: Vec<u8>, content: &[u8], off: &mut usize, small: bool) -> Value {
        let new = !self.ids.contains_key(&cid);
        let hash = cid == cid_of(&block) && (new || self.blocks[self.ids[&cid] as usize - 1] == block);
        let node = read_node(&block);
        let (leaf, data, canon) = match &node {
            Some(n) => match &n.data {
                Data::Fs(f) => (n.links.is_empty(), f.data.clone(), n.encode() == block),
                _ => (true, None, false),
            },
            _ => (true, None, false),
        };
        let d = data.as_deref().unwrap_or(&[]);
        let mut deq = true;
        if leaf {
            deq = content.len() >= *off + d.len() && &content[*off..*off + d.len()] == d;
            *off += d.len();
        }
        let mut o = json!({"id": 0, "new": new, "hash": hash, "len": block.len(), "dn": d.len(), "has": data.is_some(), "deq": deq});
        if new {
            let mut n = node_json(&block);
            let links = node.map(|n| n.links).unwrap_or_default();
            for (l, j) in links.iter().zip(n["links"].as_array_mut().unwrap()) {
                let c = l.hash.as_ref().and_then(|h| Cid::try_from(&h[..]).ok());
                j["to"] = json!(c.map(|c| self.id(&c)).unwrap_or(0));
                if !small {
                    j["h"] = json!([]);
                }
            }
            if !small && n["fs"]["k"] == "fs" {
                n["fs"]["d"] = json!([]);
            }
            o["fs"] = n["fs"].clone();
            o["links"] = n["links"].clone();
            o["canon"] = json!(canon);
            o["block"] = if small { b(&block) } else { json!([]) };
            self.blocks.push(block);
            self.cids.push(cid);
            self.ids.insert(cid, self.blocks.len() as i64);
        }
        o["id"] = json!(self.ids[&cid]);
        o
    }
    /// the block behind a CID, as an id
    fn get(&self, c: &Cid) -> Option<(i64, &[u8])> {
        let id = self.id(c);
        if id > 0 { Some((id, &self.blocks[id as usize - 1])) } else { None }
    }
}

/// What the specification takes for any number larger than everything else in a scenario
const HUGE: usize = 1 << 30;

/// Chunk size or branching factor; the model's huge stands for one which no memory could be
/// reserved for (but leaves room for some arithmetic).
fn real(scn: &Value, what: &str) -> usize {
    match (int(&scn[what]) as usize, what) {
        (HUGE, "cs") => (1 << 63) + 4096,
        (HUGE, _) => 1 << 62,
        (x, _) => x,
    }
}

pub fn adder(scn: &Value) -> FileAdder {
    if scn.get("dflt").is_some() {
        return FileAdder::default();
    }
    let (cs, bf) = (real(scn, "cs"), real(scn, "bf"));
    let b = FileAdder::builder();
    // in either order
    if cs % 2 == bf % 2 {
        b.with_chunker(Chunker::Size(cs)).with_collector(BalancedCollector::with_branching_factor(bf)).build()
    } else {
        b.with_collector(BalancedCollector::with_branching_factor(bf)).with_chunker(Chunker::Size(cs)).build()
    }
}

/// One import; returns false when it could not be completed.
fn import(scn: &Value, c: &[u8], pushes: &[Value], run: usize, em: &mut Emitted, t: &mut Vec<Value>) -> bool {
    let small = scn["small"].as_bool().unwrap_or(false);
    let hint = real(scn, "cs");
    let mut a = match std::panic::catch_unwind(|| adder(scn)) {
        Ok(a) => a,
        Err(_) => {
            t.push(json!({"ev": "finish", "run": run, "o": {"k": "panic", "msg": "new"}}));
            return false;
        }
    };
    let (mut pos, mut off, mut stuck) = (0, 0, 0);
    let mut plan = pushes.iter().map(|x| int(x) as usize);
    loop {
        let n = match plan.next() {
            Some(n) => n.min(c.len() - pos),
            None if pos == c.len() => break,
            None => c.len() - pos,
        };
        let input = &c[pos..pos + n];
        let mut used = 0;
        let o = guarded(|| {
            let (blocks, consumed) = a.push(input);
            let blocks: Vec<_> = blocks.map(|(cid, b)| em.add(cid, b, c, &mut off, small)).collect();
            used = consumed;
            json!({"k": "ok", "c": consumed, "blocks": blocks, "hint": if a.size_hint() == hint { int(&scn["cs"]) as usize } else { a.size_hint().min(HUGE - 1) }})
        });
        if pos == 0 || n == 0 {
            // the formatting must work in any state
            let _ = guarded(|| json!(format!("{:?}", a)));
        }
        let bad = o["k"] != "ok" || used > n;
        t.push(json!({"ev": "push", "run": run, "n": n, "o": o}));
        stuck = if n > 0 && used == 0 { stuck + 1 } else { 0 };
        if bad || stuck > 3 {
            if !bad {
                t.push(json!({"ev": "push", "run": run, "n": n, "o": {"k": "panic", "msg": "stuck"}}));
            }
            return false;
        }
        pos += used;
    }
    let o = guarded(|| {
        let blocks: Vec<_> = a.finish().map(|(cid, b)| em.add(cid, b, c, &mut off, small)).collect();
        json!({"k": "ok", "blocks": blocks})
    });
    let ok = o["k"] == "ok";
    t.push(json!({"ev": "finish", "run": run, "o": o}));
    ok
}

fn rd(id: i64, bytes: &[u8], c: &[u8], off: &mut usize, fsz: Vec<u64>, cont: bool) -> Value {
    let deq = c.len() >= *off + bytes.len() && &c[*off..*off + bytes.len()] == bytes;
    *off += bytes.len();
    json!({"k": "ok", "id": id, "dn": bytes.len(), "deq": deq, "fsz": fsz.iter().map(|x| u(*x)).collect::<Vec<_>>(), "cont": cont})
}

fn read_file(em: &Emitted, root: Cid, c: &[u8], cached: bool, t: &mut Vec<Value>) {
    let mut off = 0;
    let mut visit = None;
    let mut cache = if cached { Some(Default::default()) } else { None };
    let mut n = 0;
    loop {
        n += 1;
        let mut more = false;
        let o = guarded(|| {
            let next = match &visit {
                None => root,
                Some(v) => *unixfs_v1::file::visit::FileVisit::pending_links(v).0,
            };
            let (id, block) = match em.get(&next) {
                Some(x) => x,
                // the walk cannot go on: a block which has not been emitted
                None => return rd(0, &[], c, &mut off, vec![], true),
            };
            let r = match visit.take() {
                None => IdleFileVisit::default().start(block).map(|(b, s, _, v)| (b, Some(s), v)),
                Some(v) => v.continue_walk(block, &mut cache).map(|(b, v)| (b, None, v)),
            };
            match r {
                Ok((bytes, s, v)) => {
                    let mut sizes: Vec<u64> = s.into_iter().collect();
                    sizes.extend(v.as_ref().map(|v| v.file_size()));
                    more = v.is_some();
                    visit = v;
                    rd(id, bytes, c, &mut off, sizes, more)
                }
                Err(e) => file_read_failed(&e),
            }
        });
        t.push(json!({"ev": "rd", "via": "file", "n": n, "o": o}));
        if !more {
            return;
        }
    }
}

fn read_walk(em: &Emitted, root: Cid, c: &[u8], cached: bool, t: &mut Vec<Value>) {
    let mut off = 0;
    let mut cache = if cached { Some(Default::default()) } else { None };
    let mut w = Walker::new(root, "f".into());
    let mut n = 0;
    loop {
        n += 1;
        let mut more = false;
        let o = guarded(|| {
            if !w.should_continue() {
                return rd(0, &[], c, &mut off, vec![], false);
            }
            let (id, block) = match em.get(w.pending_links().0) {
                Some(x) => x,
                None => return rd(0, &[], c, &mut off, vec![], true),
            };
            let o = match w.next(block, &mut cache) {
                Ok(ContinuedWalk::File(s, _, _, _, size)) => rd(id, s.as_ref(), c, &mut off, vec![size], false),
                Ok(_) => json!({"k": "err", "e": "Kind", "d": []}),
                Err(e) => walk_error(&e),
            };
            if o["k"] != "ok" {
                return o;
            }
            let mut o = o;
            more = w.should_continue();
            o["cont"] = json!(more);
            o
        });
        t.push(json!({"ev": "rd", "via": "walk", "n": n, "o": o}));
        if !more {
            return;
        }
    }
}

pub fn run(scn: &Value) -> Vec<Value> {
    let c = content(scn);
    let mut t = vec![scn.clone()];
    t[0]["len"] = json!(c.len());
    if !scn["small"].as_bool().unwrap_or(false) {
        t[0].as_object_mut().unwrap().remove("c");
    }
    let mut em = Emitted::default();
    let mut root = None;
    for (i, pushes) in arr(&scn["runs"]).iter().enumerate() {
        if !import(scn, &c, arr(pushes), i + 1, &mut em, &mut t) {
            return t;
        }
        if i == 0 {
            let last = t.iter().rev().filter_map(|e| e["o"]["blocks"].as_array()).filter_map(|x| x.last()).next();
            root = last.map(|x| em.cids[x["id"].as_i64().unwrap() as usize - 1]);
            if root.is_none() {
                return t;
            }
        }
    }
    if let Some(root) = root {
        let cached = c.len() % 2 == 1;
        read_file(&em, root, &c, cached, &mut t);
        read_walk(&em, root, &c, !cached, &mut t);
    }
    t
}
