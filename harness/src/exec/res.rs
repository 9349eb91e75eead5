//! dir::resolve and ShardedLookup
use super::*;
use crate::obs::*;
use unixfs_v1::dir::{resolve, LookupError, MaybeResolved, ResolveError, ShardedLookup};

/// A lookup, one call at a time.
pub struct Looking<'a> {
    dag: &'a Dag,
    root: i64,
    needle: &'a str,
    own: bool,
    lookup: Option<ShardedLookup<'a>>,
    next: i64,
    started: bool,
}

impl<'a> Looking<'a> {
    pub fn new(dag: &'a Dag, root: i64, needle: &'a str, scn: &Value) -> Self {
        let own = scn.get("own").and_then(|x| x.as_bool()).unwrap_or(false);
        Looking { dag, root, needle, own, lookup: None, next: 0, started: false }
    }
}

/// The first of multiple links must be the one reported.
fn first_of(e: LookupError, o: Value, dag: &Dag) -> Value {
    if let LookupError::Multiple(m) = e {
        if json!(dag.id(&m.into_inner())) != o["d"][0]["a"] {
            return json!({"k": "err", "e": "FirstDiffers", "d": []});
        }
    }
    o
}

impl Run for Looking<'_> {
    fn step(&mut self, c: &mut Caches) -> Option<Value> {
        let dag = self.dag;
        let first = !self.started;
        let prev = self.lookup.take();
        if !first && prev.is_none() {
            return None;
        }
        let block = if first { dag.block(self.root).unwrap() } else { dag.block(self.next)? };
        self.started = true;
        let (mut lookup, mut next) = (None, 0);
        let o = guarded(|| {
            let r = match prev {
                None => match resolve(block, self.needle, &mut c.dir) {
                    Ok(r) => r,
                    Err(e) => {
                        let o = resolve_error(&e, dag);
                        return if let ResolveError::Lookup(l) = e { first_of(l, o, dag) } else { o };
                    }
                },
                Some(l) => match l.continue_walk(block, &mut c.dir) {
                    Ok(r) => r,
                    Err(e) => {
                        let o = lookup_error(&e, dag);
                        let e = e.into_resolve_error();
                        if resolve_error(&e, dag) != o {
                            return json!({"k": "err", "e": "ConversionDiffers", "d": []});
                        }
                        return if let ResolveError::Lookup(l) = e { first_of(l, o, dag) } else { o };
                    }
                },
            };
            let o = resolved(&r, dag);
            formats(o["pend"][0].as_array().map_or(0, |p| p.len()), &r);
            if let MaybeResolved::NeedToLoadMore(l) = r {
                next = dag.id(l.pending_links().0);
                lookup = Some(if self.own { l.with_owned_needle() } else { l });
            }
            o
        });
        self.lookup = lookup;
        self.next = next;
        Some(json!({"ev": if first { "resolve" } else { "more" }, "o": o}))
    }
}
