//! Abstract dag-pb nodes and an encoder that is independent of unixfs-v1 (so that malformed nodes
//! can be written, too).
use multihash::{Code, MultihashDigest};
use libipld::Cid;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fs {
    pub ty: Option<u64>,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Link {
    pub hash: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub tsize: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub enum Data {
    #[default]
    None,
    Raw(Vec<u8>),
    Fs(Fs),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Node {
    pub links: Vec<Link>,
    pub data: Data,
    /// write the data field before the links (legal protobuf, not canonical dag-pb)
    pub data_first: bool,
}

pub const RAW: u64 = 0;
pub const DIR: u64 = 1;
pub const FILE: u64 = 2;
pub const META: u64 = 3;
pub const SYMLINK: u64 = 4;
pub const HAMT: u64 = 5;

pub fn varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn bytes_field(tag: u8, b: &[u8], out: &mut Vec<u8>) {
    out.push(tag);
    varint(b.len() as u64, out);
    out.extend_from_slice(b);
}

impl Fs {
    pub fn new(ty: u64) -> Self {
        Fs { ty: Some(ty), ..Default::default() }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(t) = self.ty {
            o.push(0x08);
            varint(t, &mut o);
        }
        if let Some(d) = &self.data {
            bytes_field(0x12, d, &mut o);
        }
        if let Some(v) = self.filesize {
            o.push(0x18);
            varint(v, &mut o);
        }
        for v in &self.blocksizes {
            o.push(0x20);
            varint(*v, &mut o);
        }
        if let Some(v) = self.hash_type {
            o.push(0x28);
            varint(v, &mut o);
        }
        if let Some(v) = self.fanout {
            o.push(0x30);
            varint(v, &mut o);
        }
        if let Some(v) = self.mode {
            o.push(0x38);
            varint(v as u64, &mut o);
        }
        if let Some((s, n)) = &self.mtime {
            let mut m = vec![0x08];
            varint(*s as u64, &mut m);
            if let Some(n) = n {
                m.push(0x15);
                m.extend_from_slice(&n.to_le_bytes());
            }
            bytes_field(0x42, &m, &mut o);
        }
        o
    }
}

impl Link {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        if let Some(h) = &self.hash {
            bytes_field(0x0a, h, &mut o);
        }
        if let Some(n) = &self.name {
            bytes_field(0x12, n, &mut o);
        }
        if let Some(t) = self.tsize {
            o.push(0x18);
            varint(t, &mut o);
        }
        o
    }
}

impl Node {
    pub fn fs(fs: Fs) -> Node {
        Node { links: vec![], data: Data::Fs(fs), data_first: false }
    }
    pub fn with_links(mut self, l: Vec<Link>) -> Node {
        self.links = l;
        self
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut d = vec![];
        match &self.data {
            Data::None => {}
            Data::Raw(b) => bytes_field(0x0a, b, &mut d),
            Data::Fs(fs) => bytes_field(0x0a, &fs.encode(), &mut d),
        }
        let mut l = vec![];
        for k in &self.links {
            bytes_field(0x12, &k.encode(), &mut l);
        }
        if self.data_first {
            d.extend(l);
            d
        } else {
            l.extend(d);
            l
        }
    }
}

pub fn cid_of(block: &[u8]) -> Cid {
    Cid::new_v1(0x70, Code::Sha2_256.digest(block))
}

// --- reading --------------------------------------------------------------------------------------

enum Val<'a> {
    Int(u64),
    Bytes(&'a [u8]),
    F32(u32),
    F64,
}

fn read_varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*at)?;
        *at += 1;
        if i == 9 && x > 1 {
            return None;
        }
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Some(v);
        }
    }
    None
}

fn fields(b: &[u8]) -> Option<Vec<(u64, Val<'_>)>> {
    let mut at = 0;
    let mut res = vec![];
    while at < b.len() {
        let tag = read_varint(b, &mut at)?;
        let v = match tag & 7 {
            0 => Val::Int(read_varint(b, &mut at)?),
            1 => {
                b.get(at..at.checked_add(8)?)?;
                at += 8;
                Val::F64
            }
            2 => {
                let n = read_varint(b, &mut at)? as usize;
                let s = b.get(at..at.checked_add(n)?)?;
                at += n;
                Val::Bytes(s)
            }
            5 => {
                let s = b.get(at..at + 4)?;
                at += 4;
                Val::F32(u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
            }
            _ => return None,
        };
        res.push((tag >> 3, v));
    }
    if at == b.len() { Some(res) } else { None }
}

pub fn read_fs(b: &[u8]) -> Option<Fs> {
    let mut fs = Fs::default();
    for (n, v) in fields(b)? {
        match (n, v) {
            (1, Val::Int(x)) => fs.ty = Some(x),
            (2, Val::Bytes(x)) => fs.data = Some(x.to_vec()),
            (3, Val::Int(x)) => fs.filesize = Some(x),
            (4, Val::Int(x)) => fs.blocksizes.push(x),
            (4, Val::Bytes(p)) => {
                let mut at = 0;
                while at < p.len() {
                    fs.blocksizes.push(read_varint(p, &mut at)?);
                }
            }
            (5, Val::Int(x)) => fs.hash_type = Some(x),
            (6, Val::Int(x)) => fs.fanout = Some(x),
            (7, Val::Int(x)) => fs.mode = Some(x as u32),
            (8, Val::Bytes(p)) => {
                let mut t = (0, None);
                for (n, v) in fields(p)? {
                    match (n, v) {
                        (1, Val::Int(x)) => t.0 = x as i64,
                        (2, Val::F32(x)) => t.1 = Some(x),
                        _ => return None,
                    }
                }
                fs.mtime = Some(t);
            }
            _ => return None,
        }
    }
    Some(fs)
}

/// Reads a block with the fields dag-pb knows (in any order).
pub fn read_node(b: &[u8]) -> Option<Node> {
    let mut node = Node::default();
    for (n, v) in fields(b)? {
        match (n, v) {
            (1, Val::Bytes(x)) => node.data = match read_fs(x) {
                Some(fs) => Data::Fs(fs),
                None => Data::Raw(x.to_vec()),
            },
            (2, Val::Bytes(x)) => {
                let mut l = Link::default();
                for (n, v) in fields(x)? {
                    match (n, v) {
                        (1, Val::Bytes(x)) => l.hash = Some(x.to_vec()),
                        (2, Val::Bytes(x)) => l.name = Some(x.to_vec()),
                        (3, Val::Int(x)) => l.tsize = Some(x),
                        _ => return None,
                    }
                }
                node.links.push(l);
            }
            _ => return None,
        }
    }
    Some(node)
}

/// Length-delimited fields with this tag, as far as the bytes can be read at all.
fn parts(b: &[u8], tag: u64) -> Vec<&[u8]> {
    fn varint(b: &[u8], at: &mut usize) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let x = *b.get(*at)?;
            *at += 1;
            v |= ((x & 0x7f) as u64).wrapping_shl(7 * i);
            if x < 0x80 {
                return Some(v);
            }
        }
        None
    }
    let (mut at, mut res) = (0, vec![]);
    let mut next = || -> Option<()> {
        let t = varint(b, &mut at)?;
        match t & 7 {
            0 => {
                varint(b, &mut at)?;
            }
            1 => at += 8,
            5 => at += 4,
            2 => {
                let n = varint(b, &mut at)? as usize;
                let s = b.get(at..at.checked_add(n)?)?;
                at += n;
                if t == tag {
                    res.push(s);
                }
            }
            _ => return None,
        }
        Some(())
    };
    while next().is_some() {}
    res
}

/// Hashes of the links in any block.
pub fn hashes(b: &[u8]) -> Vec<Vec<u8>> {
    let mut res = vec![vec![]];
    for l in parts(b, 0x12) {
        res.extend(parts(l, 0x0a).into_iter().map(|h| h.to_vec()));
    }
    res
}

/// A produced block as JSON: its UnixFS fields and links (Wire.tla).
pub fn node_json(block: &[u8]) -> serde_json::Value {
    use crate::js::*;
    use serde_json::json;
    match read_node(block) {
        Some(Node { links, data: Data::Fs(fs), .. }) => json!({
            "fs": {
                "k": "fs",
                "t": opt(fs.ty, |t| json!(t)),
                "d": opt(fs.data.as_ref(), |d| b(d)),
                "sz": opt(fs.filesize, u),
                "bs": fs.blocksizes.iter().map(|x| u(*x)).collect::<Vec<_>>(),
                "ht": opt(fs.hash_type, u), "fo": opt(fs.fanout, u),
                "mode": opt(fs.mode, |m| u(m as u64)),
                "mt": opt(fs.mtime, |(s, n)| json!({"s": u(s as u64), "n": opt(n, |n| u(n as u64))})),
            },
            "links": links.iter().map(|l| json!({
                "h": opt(l.hash.as_ref(), |x| b(x)), "n": opt(l.name.as_ref(), |x| b(x)), "ts": opt(l.tsize, u)
            })).collect::<Vec<_>>(),
        }),
        _ => json!({"fs": {"k": "unreadable"}, "links": []}),
    }
}
