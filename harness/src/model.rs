//! Abstract DAGs (see spec/Nodes.tla) and their concrete blocks.
use crate::dag::{cid_of, Data, Fs, Link, Node};
use crate::js::*;
use libipld::cid::{Cid, Version};
use multihash::{Code, Multihash, MultihashDigest};
use serde_json::{json, Value};
use std::collections::HashMap;

/// A link of an abstract node: `to >= 1` is a valid CID (of a node, or a label beyond the nodes),
/// `to <= 0` selects one of the invalid hashes.
#[derive(Clone, Debug, PartialEq)]
pub struct ALink {
    pub to: i64,
    pub n: Option<Vec<u8>>,
    pub ts: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Fs,
    Raw(Vec<u8>),
    None,
    Empty,
    Bad(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ANode {
    pub kind: Kind,
    pub fs: Fs,
    pub l: Vec<ALink>,
    pub data_first: bool,
}

impl ANode {
    pub fn new(ty: u64) -> ANode {
        ANode { kind: Kind::Fs, fs: Fs::new(ty), l: vec![], data_first: false }
    }

    pub fn json(&self) -> Value {
        let (k, raw) = match &self.kind {
            Kind::Fs => ("fs", vec![]),
            Kind::Raw(b) => ("raw", b.clone()),
            Kind::None => ("none", vec![]),
            Kind::Empty => ("empty", vec![]),
            Kind::Bad(b) => ("bad", b.clone()),
        };
        let fs = &self.fs;
        json!({
            "k": k, "raw": b(&raw), "df": self.data_first,
            "t": opt(fs.ty, |t| json!(t)),
            "d": opt(fs.data.as_ref(), |d| b(d)),
            "sz": opt(fs.filesize, u),
            "bs": fs.blocksizes.iter().map(|x| u(*x)).collect::<Vec<_>>(),
            "ht": opt(fs.hash_type, u), "fo": opt(fs.fanout, u),
            "mode": opt(fs.mode, |m| u(m as u64)),
            "mt": opt(fs.mtime, |(s, n)| json!({"s": u(s as u64), "n": opt(n, |n| u(n as u64))})),
            "l": self.l.iter().map(|l| json!({
                "to": l.to, "n": opt(l.n.as_ref(), |n| b(n)), "ts": opt(l.ts, u)
            })).collect::<Vec<_>>(),
        })
    }

    pub fn from_json(v: &Value) -> ANode {
        let raw = || v.get("raw").map(bn).unwrap_or_default();
        let kind = match v["k"].as_str().unwrap() {
            "fs" => Kind::Fs,
            "raw" => {
                let r = raw();
                Kind::Raw(if r.is_empty() { vec![0xff] } else { r })
            }
            "none" => Kind::None,
            "empty" => Kind::Empty,
            "bad" => {
                let r = raw();
                Kind::Bad(if r.is_empty() { vec![0xff] } else { r })
            }
            x => panic!("kind {}", x),
        };
        ANode {
            kind,
            fs: Fs {
                ty: optn(&v["t"], |x| x.as_u64().unwrap()),
                data: optn(&v["d"], bn),
                filesize: optn(&v["sz"], un),
                blocksizes: arr(&v["bs"]).iter().map(un).collect(),
                hash_type: optn(&v["ht"], un),
                fanout: optn(&v["fo"], un),
                mode: optn(&v["mode"], |x| un(x) as u32),
                mtime: optn(&v["mt"], |x| (un(&x["s"]) as i64, optn(&x["n"], |n| un(n) as u32))),
            },
            l: arr(&v["l"])
                .iter()
                .map(|l| ALink { to: int(&l["to"]), n: optn(&l["n"], bn), ts: optn(&l["ts"], un) })
                .collect(),
            data_first: v.get("df").and_then(|x| x.as_bool()).unwrap_or(false),
        }
    }
}

/// CID of a label, i.e. of a block which is not part of the DAG. Different versions, codecs and
/// digests, depending on the label.
pub fn label_cid(label: i64) -> Cid {
    let mh = Code::Sha2_256.digest(&label.to_le_bytes());
    match label % 10 {
        0 => Cid::new_v0(mh).unwrap(),
        1 => Cid::new_v1(0x70, mh),
        2 => Cid::new_v1(0x55, mh),
        3 => Cid::new_v1(0x0129, mh),
        4 => Cid::new_v1(0x55, Multihash::wrap(0x00, &label.to_le_bytes()).unwrap()),
        // blake2b-256 and -512, whose codes take more than one byte
        5 => Cid::new_v1(0x70, Multihash::wrap(0xb220, mh.digest()).unwrap()),
        6 => Cid::new_v1(0x55, Multihash::wrap(0xb240, Code::Sha2_512.digest(&label.to_le_bytes()).digest()).unwrap()),
        // a short digest
        7 => Cid::new_v1(0x70, Multihash::wrap(0x12, &mh.digest()[..20]).unwrap()),
        8 => Cid::new_v1(0x71, Code::Sha2_512.digest(&label.to_le_bytes())),
        _ => Cid::new_v1(0x0001_0203, Code::Sha2_512.digest(&label.to_le_bytes())),
    }
}

/// Bytes of hashes which are not CIDs.
pub fn invalid_hash(to: i64) -> Option<Vec<u8>> {
    match to {
        0 => Some(vec![1, 2, 3]),
        -1 => None,
        -2 => Some(vec![]),
        -3 => Some(vec![0xff; 40]),
        -4 => {
            let mut v = cid_of(b"truncated").to_bytes();
            v.truncate(20);
            Some(v)
        }
        _ => Some(vec![0x12]),
    }
}

pub fn cid_bytes(c: &Cid) -> Vec<u8> {
    match c.version() {
        Version::V0 => c.hash().to_bytes(),
        Version::V1 => c.to_bytes(),
    }
}

/// Abstract DAG with its concrete blocks; after `build` the ids are canonical: nodes with an equal
/// block are all referred to with the smallest id.
pub struct Dag {
    pub nodes: Vec<ANode>,
    pub blocks: Vec<Vec<u8>>,
    pub cids: Vec<Cid>,
    pub ids: HashMap<Cid, i64>,
    pub canon: Vec<i64>,
    /// for blocks given as bytes: what the hashes of links refer to
    pub tab: Option<Vec<(Vec<u8>, i64)>>,
}

impl Dag {
    pub fn build(mut nodes: Vec<ANode>) -> Dag {
        let n = nodes.len();
        for a in nodes.iter_mut() {
            // no fields at all: empty data
            if a.kind == Kind::Fs && a.fs == Fs::default() {
                a.kind = Kind::Empty;
            }
        }
        let mut blocks: Vec<Option<Vec<u8>>> = vec![None; n];
        let mut cids: Vec<Option<Cid>> = vec![None; n];
        fn go(i: usize, nodes: &[ANode], blocks: &mut Vec<Option<Vec<u8>>>, cids: &mut Vec<Option<Cid>>, depth: usize) {
            assert!(depth <= nodes.len(), "cyclic DAG");
            if blocks[i].is_some() {
                return;
            }
            for l in &nodes[i].l {
                if l.to >= 1 && (l.to as usize) <= nodes.len() {
                    go(l.to as usize - 1, nodes, blocks, cids, depth + 1);
                }
            }
            let a = &nodes[i];
            let links = a
                .l
                .iter()
                .map(|l| Link {
                    hash: if l.to < 1 {
                        invalid_hash(l.to)
                    } else if (l.to as usize) <= nodes.len() {
                        Some(cid_bytes(cids[l.to as usize - 1].as_ref().unwrap()))
                    } else {
                        Some(cid_bytes(&label_cid(l.to)))
                    },
                    name: l.n.clone(),
                    tsize: l.ts,
                })
                .collect();
            let node = Node {
                links,
                data: match &a.kind {
                    Kind::Fs => Data::Fs(a.fs.clone()),
                    Kind::Raw(b) => Data::Raw(b.clone()),
                    Kind::None | Kind::Bad(_) => Data::None,
                    Kind::Empty => Data::Raw(vec![]),
                },
                data_first: a.data_first,
            };
            let bytes = match &a.kind {
                Kind::Bad(b) => b.clone(),
                _ => node.encode(),
            };
            // some of the blocks are referred to with version 0
            let c = cid_of(&bytes);
            cids[i] = Some(if c.hash().digest()[31] % 4 == 0 { Cid::new_v0(*c.hash()).unwrap() } else { c });
            blocks[i] = Some(bytes);
        }
        for i in 0..n {
            go(i, &nodes, &mut blocks, &mut cids, 0);
        }
        let cids: Vec<Cid> = cids.into_iter().map(|c| c.unwrap()).collect();
        let mut ids = HashMap::new();
        let mut canon = vec![];
        for (i, c) in cids.iter().enumerate() {
            canon.push(*ids.entry(*c).or_insert(i as i64 + 1));
        }
        for a in nodes.iter_mut() {
            for l in a.l.iter_mut() {
                if l.to >= 1 && (l.to as usize) <= n {
                    l.to = canon[l.to as usize - 1];
                } else if l.to > n as i64 {
                    ids.insert(label_cid(l.to), l.to);
                }
            }
        }
        Dag { nodes, blocks: blocks.into_iter().map(|b| b.unwrap()).collect(), cids, ids, canon, tab: None }
    }
    /// Replaces blocks (found with the same CIDs as before) by arbitrary bytes. From here on all of
    /// the blocks are described by their bytes.
    pub fn patch(&mut self, patches: &Value) {
        for p in arr(patches) {
            let i = int(&p[0]) as usize - 1;
            let id = self.canon[i] as usize - 1;
            self.blocks[id] = bn(&p[1]);
        }
        let mut tab: Vec<(Vec<u8>, i64)> = vec![];
        let mut next = 10_000;
        for b in &self.blocks {
            for h in crate::dag::hashes(b) {
                if tab.iter().any(|x| x.0 == h) {
                    continue;
                }
                let to = match Cid::try_from(&h[..]) {
                    Ok(c) => *self.ids.entry(c).or_insert_with(|| {
                        next += 1;
                        next
                    }),
                    Err(_) => (0..=5).map(|i| -i).find(|i| *i != -1 && invalid_hash(*i).as_deref() == Some(&h[..])).unwrap_or(-99),
                };
                tab.push((h, to));
            }
        }
        self.tab = Some(tab);
    }
    /// the entries of a begin event describing the blocks
    pub fn describe(&self, begin: &mut Value) {
        match &self.tab {
            None => begin["nodes"] = self.json(),
            Some(t) => {
                begin["nodes"] = self.blocks.iter().map(|x| json!({"b": b(x)})).collect();
                begin["tab"] = t.iter().map(|(h, to)| json!({"h": b(h), "to": to})).collect();
            }
        }
    }
    pub fn json(&self) -> Value {
        Value::Array(self.nodes.iter().map(|n| n.json()).collect())
    }
    pub fn from_json(v: &Value) -> Dag {
        Dag::build(arr(v).iter().map(ANode::from_json).collect())
    }
    /// id of a CID, 0 when it is not known
    pub fn id(&self, c: &Cid) -> i64 {
        self.ids.get(c).copied().unwrap_or(0)
    }
    pub fn block(&self, id: i64) -> Option<&[u8]> {
        if id >= 1 && (id as usize) <= self.blocks.len() {
            Some(&self.blocks[id as usize - 1])
        } else {
            None
        }
    }
}
