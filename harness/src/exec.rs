//! Executes scenarios against the real code and records one event per call.
use crate::model::Dag;
use serde_json::{json, Value};

pub mod add;
pub mod agree;
pub mod bld;
pub mod file;
pub mod hist;
pub mod pb;
pub mod res;
pub mod tree;
pub mod val;
pub mod walk;

/// Runs a scenario and returns its trace: a "begin" event with the canonical scenario, one event
/// per call, and "end".
pub fn run(id: u64, scn: &Value) -> Vec<Value> {
    if scn["kind"] == "hist" {
        return hist::run(id, scn);
    }
    let mut t = match scn["kind"].as_str().expect("kind") {
        "file" | "walk" | "res" => hist::single(scn),
        "bld" => bld::run(scn),
        "pb" => pb::run(scn),
        "val" => val::run(scn),
        "sym" => pb::symlink(scn),
        "add" => add::run(scn),
        "tree" => tree::run(scn),
        "agree" => agree::run(scn),
        k => panic!("unknown scenario kind {}", k),
    };
    t[0]["ev"] = json!("begin");
    t[0]["id"] = json!(id);
    t[0]["kind"] = scn["kind"].clone();
    t.push(json!({"ev": "end"}));
    t
}

/// The caches passed to the calls.
#[derive(Default)]
pub struct Caches {
    pub visit: Option<unixfs_v1::file::visit::Cache>,
    pub dir: Option<unixfs_v1::dir::Cache>,
}

impl Caches {
    pub fn fresh() -> Caches {
        Caches { visit: Some(Default::default()), dir: Some(std::collections::VecDeque::new().into()) }
    }
}

/// A visit, walk or lookup.
pub trait Run {
    /// The next call as event; None when there is none.
    fn step(&mut self, c: &mut Caches) -> Option<Value>;
}

pub fn begin_dag(scn: &Value) -> (Dag, i64) {
    let mut dag = Dag::from_json(&scn["nodes"]);
    let root = dag.canon[scn["root"].as_i64().unwrap() as usize - 1];
    if let Some(p) = scn.get("patch") {
        dag.patch(p);
    }
    (dag, root)
}

/// Steps of a scenario at most; blocks given as bytes might be linked in cycles.
pub fn max_steps(scn: &Value) -> usize {
    match scn.get("steps").and_then(|x| x.as_u64()) {
        Some(n) => n as usize,
        None if scn.get("patch").is_some() => 40,
        None => MAX_STEPS,
    }
}

/// Steps after which a walk is not continued (no generated DAG has as many blocks).
pub const MAX_STEPS: usize = 600;
