//! JSON conventions shared with the TLA+ modules: u64 as three limbs of base 2^24, byte strings as
//! arrays, options as arrays of length 0 or 1.
use serde_json::{json, Value};

pub fn u(v: u64) -> Value {
    json!([v >> 48, (v >> 24) & 0xff_ffff, v & 0xff_ffff])
}
pub fn un(v: &Value) -> u64 {
    let g = |i: usize| v[i].as_u64().expect("limb");
    // numbers above u64::MAX never occur in scenarios
    (g(0) << 48) | (g(1) << 24) | g(2)
}
pub fn b(v: &[u8]) -> Value {
    Value::Array(v.iter().map(|x| json!(x)).collect())
}
pub fn bn(v: &Value) -> Vec<u8> {
    v.as_array().expect("bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
pub fn opt<T>(o: Option<T>, f: impl FnOnce(T) -> Value) -> Value {
    match o {
        None => json!([]),
        Some(x) => json!([f(x)]),
    }
}
pub fn optn<T>(v: &Value, f: impl FnOnce(&Value) -> T) -> Option<T> {
    let a = v.as_array().expect("option");
    a.first().map(f)
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().expect("int")
}

/// Names of roots may be written in ways which do not matter (`a//b`, `a/./b`, `a/`); paths are then
/// told by their components.
pub struct RootName {
    pub name: String,
    odd: bool,
}

impl RootName {
    pub fn of(scn: &Value) -> RootName {
        let name = String::from_utf8(bn(&scn["name"])).expect("root name");
        let odd = parts(name.as_ref()) != b(name.as_bytes());
        RootName { name, odd }
    }
    pub fn path(&self, p: &std::path::Path) -> Value {
        use std::os::unix::ffi::OsStrExt;
        if self.odd { parts(p) } else { b(p.as_os_str().as_bytes()) }
    }
    pub fn json(&self) -> Value {
        parts(self.name.as_ref())
    }
}

fn parts(p: &std::path::Path) -> Value {
    use std::os::unix::ffi::OsStrExt;
    let q: std::path::PathBuf = p.components().collect();
    b(q.as_os_str().as_bytes())
}
