//! Arbitrary bytes in place of some of the blocks of any other scenario.
use super::*;
use crate::dag;
use crate::exec::begin_dag;
use crate::js::*;
use serde_json::json;

/// Swaps fields of messages around, or writes the data twice, ...
fn relaid(r: &mut Rng, n: &dag::Node) -> Vec<u8> {
    let links: Vec<Vec<u8>> = n.links.iter().map(|l| dag::Node { links: vec![l.clone()], ..Default::default() }.encode()).collect();
    let data = |d: &dag::Data| dag::Node { data: d.clone(), ..Default::default() }.encode();
    let mut parts = links;
    let at = r.us(0, parts.len());
    let first = data(&n.data);
    parts.insert(at, first);
    if r.chance(1, 2) {
        // another data: only the last one counts
        let other = match r.below(3) {
            0 => dag::Data::Raw(vec![]),
            1 => dag::Data::Fs(super::pb::fs(r)),
            _ => dag::Data::Raw(vec![0xff]),
        };
        let at = r.us(0, parts.len());
        parts.insert(at, data(&other));
    }
    parts.concat()
}

/// The UnixFS message with fields in another order, repeated or unknown ones
fn message(r: &mut Rng, n: &dag::Node) -> Vec<u8> {
    let mut d = match &n.data {
        dag::Data::Fs(f) => f.encode(),
        dag::Data::Raw(b) => b.clone(),
        dag::Data::None => vec![],
    };
    let mut extra = dag::Fs::default();
    match r.below(6) {
        0 => extra.ty = Some(r.below(7)),
        1 => extra.filesize = Some(r.below(20)),
        2 => extra.blocksizes = vec![r.below(4)],
        3 => extra.data = Some(vec![]),
        4 => extra.mode = Some(r.below(9) as u32),
        _ => {}
    }
    let mut e = extra.encode();
    if r.chance(1, 4) {
        // unknown fields
        e.extend(*r.pick(&[&[0x48u8, 1][..], &[0x4a, 1, 7], &[0x4a, 0], &[0x22, 1, 5], &[0x22, 0], &[0x4d, 1, 2, 3, 4], &[0x49, 1, 2, 3, 4, 5, 6, 7, 8],
            &[0x4a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1], &[0xfa, 0xff, 0xff, 0xff, 0x0f, 1, 9]]));
    }
    let at = if r.chance(1, 2) { 0 } else { d.len() };
    d.splice(at..at, e);
    if r.chance(1, 3) {
        super::pb::mutate(r, &mut d);
    }
    dag::Node { links: n.links.clone(), data: dag::Data::Raw(d), data_first: r.chance(1, 5) }.encode()
}

pub fn any(r: &mut Rng) -> Value {
    let mut s = match r.below(6) {
        0 => super::file::good(r),
        1 => super::file::bad(r),
        2 => super::walk::good(r),
        3 => super::walk::bad(r),
        4 => super::res::plain(r),
        _ => super::res::shards(r),
    };
    let (dag, root) = begin_dag(&s);
    let n = dag.nodes.len();
    let mut patch = vec![];
    for _ in 0..r.us(1, 2) {
        let id = if r.chance(1, 3) { root as usize } else { r.us(1, n) };
        let old = &dag.blocks[id - 1];
        let node = dag::read_node(old).unwrap_or_default();
        let mut new = match r.below(12) {
            0 => dag.blocks[r.us(1, n) - 1].clone(),
            1 => {
                let k = r.us(0, 12);
                r.bytes(k)
            }
            2 => super::pb::node(r).encode(),
            3 | 4 => relaid(r, &node),
            5 | 6 | 7 => message(r, &node),
            _ => old.clone(),
        };
        if new == *old || r.chance(1, 8) {
            for _ in 0..r.us(1, 2) {
                super::pb::mutate(r, &mut new);
            }
        }
        patch.push(json!([id, b(&new)]));
    }
    s["patch"] = patch.into();
    s
}
