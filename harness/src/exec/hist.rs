//! Visits, walks and lookups: alone, or several of them taking turns with shared caches.
use super::*;
use crate::js::*;

/// A scenario of its own in a history, with everything its run borrows from.
struct Sub<'s> {
    scn: &'s Value,
    dag: Dag,
    root: i64,
    needle: String,
}

impl<'s> Sub<'s> {
    fn new(scn: &'s Value) -> Sub<'s> {
        let (dag, root) = begin_dag(scn);
        let needle = scn.get("needle").map(|n| String::from_utf8(bn(n)).expect("needle")).unwrap_or_default();
        Sub { scn, dag, root, needle }
    }
    fn start(&self) -> Box<dyn Run + '_> {
        match self.scn["kind"].as_str().unwrap() {
            "file" => Box::new(file::Visiting::new(&self.dag, self.root, self.scn)),
            "walk" => Box::new(walk::Walking::new(&self.dag, self.root, self.scn)),
            "res" => Box::new(res::Looking::new(&self.dag, self.root, &self.needle, self.scn)),
            k => panic!("kind {} in a history", k),
        }
    }
    fn begin(&self) -> Value {
        let mut b = json!({"root": self.root});
        for k in ["range", "name", "needle"] {
            if let Some(x) = self.scn.get(k) {
                b[k] = if k == "name" { RootName::of(self.scn).json() } else { x.clone() };
            }
        }
        self.dag.describe(&mut b);
        b
    }
    /// the first calls without any caches
    fn alone(&self, steps: usize) -> Vec<Value> {
        let mut r = self.start();
        (0..steps).map_while(|_| r.step(&mut Caches::default())).collect()
    }
}

pub fn single(scn: &Value) -> Vec<Value> {
    let sub = Sub::new(scn);
    let mut t = vec![sub.begin()];
    let mut c = if scn.get("cache").is_some() { Caches::fresh() } else { Caches::default() };
    let mut r = sub.start();
    while t.len() <= max_steps(scn) {
        match r.step(&mut c) {
            Some(e) => t.push(e),
            None => break,
        }
    }
    t
}

/// {"runs": [scenario], "sched": [[run, cache]]}: the run makes its next call (0 where it is finished)
/// with 0 the shared caches, 1 none, 2 fresh ones, 3 fresh ones which are shared from then on.
pub fn run(id: u64, scn: &Value) -> Vec<Value> {
    let subs: Vec<Sub<'_>> = arr(&scn["runs"]).iter().map(Sub::new).collect();
    let mut runs: Vec<_> = subs.iter().map(|s| s.start()).collect();
    let mut traces: Vec<Vec<Value>> = subs.iter().map(|_| vec![]).collect();
    let mut shared = Caches::default();
    for s in arr(&scn["sched"]) {
        let k = int(&s[0]) as usize;
        let e = match int(&s[1]) {
            0 => runs[k].step(&mut shared),
            1 => runs[k].step(&mut Caches::default()),
            2 => runs[k].step(&mut Caches::fresh()),
            _ => {
                shared = Caches::fresh();
                runs[k].step(&mut shared)
            }
        };
        traces[k].extend(e);
    }
    let mut t = vec![];
    for (i, s) in subs.iter().enumerate() {
        let mut b = s.begin();
        b["ev"] = json!("begin");
        b["id"] = json!(id);
        b["kind"] = s.scn["kind"].clone();
        t.push(b);
        let alone = s.alone(traces[i].len());
        t.push(json!({"ev": "cmp", "o": {"k": "ok", "same": alone == traces[i]}}));
        t.append(&mut traces[i]);
        t.push(json!({"ev": "end"}));
    }
    t
}
