//! The node types: PBNode, PBLink, UnixFs and FlatUnixFs, reading and writing.
use super::*;
use crate::js::*;
use crate::obs::guarded;
use quick_protobuf::{MessageWrite, Writer};
use std::borrow::Cow;
use std::convert::TryFrom;
use unixfs_v1::{FlatUnixFs, PBLink, PBNode, UnixFs, UnixFsType};

fn fs_json(data: &UnixFs<'_>) -> Value {
    let ty: i32 = data.Type.into();
    json!({"k": "fs", "t": [ty], "d": opt(data.Data.as_ref(), |d| b(d)), "sz": opt(data.filesize, u),
        "bs": data.blocksizes.iter().map(|x| u(*x)).collect::<Vec<_>>(),
        "ht": opt(data.hashType, u), "fo": opt(data.fanout, u), "mode": opt(data.mode, |m| u(m as u64)),
        "mt": opt(data.mtime.as_ref(), |m| json!({"s": u(m.Seconds as u64), "n": opt(m.FractionalNanoseconds, |n| u(n as u64))}))})
}
fn link_json(l: &PBLink<'_>) -> Value {
    json!({"h": opt(l.Hash.as_ref(), |h| b(h)), "n": opt(l.Name.as_ref(), |n| b(n.as_bytes())), "ts": opt(l.Tsize, u)})
}
fn links_json(links: &[PBLink<'_>]) -> Value {
    Value::Array(links.iter().map(link_json).collect())
}
fn flat_json(f: &FlatUnixFs<'_>) -> Value {
    json!({"fs": fs_json(&f.data), "links": links_json(&f.links)})
}
fn node_json(n: &PBNode<'_>) -> Value {
    json!({"d": opt(n.Data.as_ref(), |d| b(d)), "links": links_json(&n.Links)})
}
fn ok(mut v: Value) -> Value {
    v["k"] = json!("ok");
    v
}
fn failed(name: &str) -> Value {
    json!({"k": "err", "e": name, "d": []})
}

/// Writes a message, into a buffer which is larger or of exactly its size.
fn written<M: MessageWrite>(m: &M) -> (Value, Vec<u8>) {
    let mut buf = vec![];
    let o = guarded(|| {
        let size = m.get_size();
        if m.write_message(&mut Writer::new(&mut buf)).is_err() {
            return failed("Write");
        }
        json!({"k": "ok", "size": size, "b": b(&buf)})
    });
    (o, buf)
}

fn out<M: MessageWrite>(what: &str, val: Value, m: &M, t: &mut Vec<Value>) -> Vec<u8> {
    let (o, buf) = written(m);
    t.push(json!({"ev": "out", "what": what, "val": val, "o": o}));
    buf
}

/// Everything read from a block, and what it is written as again.
pub fn reading(block: &[u8], t: &mut Vec<Value>) {
    let mut flat = None;
    let o = guarded(|| match FlatUnixFs::try_parse(block) {
        Err(e) => {
            // only the name of the variant is looked at, the type is not accessible
            let _ = format!("{}", e);
            let s = format!("{:?}", e);
            let name = s.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("");
            failed(if ["InvalidDagPb", "NoData", "InvalidUnixFs"].contains(&name) { name } else { "?" })
        }
        Ok(f) => {
            let v = ok(flat_json(&f));
            flat = Some(f);
            v
        }
    });
    t.push(json!({"ev": "flat", "o": o}));
    let mut node = None;
    let o = guarded(|| match PBNode::try_from(block) {
        Err(_) => failed("Protobuf"),
        Ok(n) => {
            let v = ok(node_json(&n));
            node = Some(n);
            v
        }
    });
    t.push(json!({"ev": "node", "o": o}));
    if let Some(n) = &node {
        let o = guarded(|| match UnixFs::try_from(n) {
            Err(_) => failed("Protobuf"),
            Ok(d) => ok(json!({"fs": fs_json(&d)})),
        });
        t.push(json!({"ev": "ufs", "d": opt(n.Data.as_ref(), |d| b(d)), "o": o}));
        out("node", node_json(n), n, t);
        for l in n.Links.iter().take(3) {
            out("link", link_json(l), l, t);
        }
    }
    if let Some(f) = &flat {
        out("flat", flat_json(f), f, t);
        out("fs", json!({"fs": fs_json(&f.data)}), &f.data, t);
    }
}

fn fs_of(v: &Value) -> UnixFs<'static> {
    let mut fs = UnixFs {
        Type: UnixFsType::from(int(&v["t"][0]) as i32),
        Data: optn(&v["d"], |d| Cow::Owned(bn(d))),
        filesize: optn(&v["sz"], un),
        blocksizes: arr(&v["bs"]).iter().map(un).collect(),
        hashType: optn(&v["ht"], un),
        fanout: optn(&v["fo"], un),
        mode: optn(&v["mode"], |m| un(m) as u32),
        mtime: None,
    };
    if let Some(m) = optn(&v["mt"], |m| (un(&m["s"]) as i64, optn(&m["n"], |n| un(n) as u32))) {
        let mut time = fs.mtime.take().unwrap_or_default();
        time.Seconds = m.0;
        time.FractionalNanoseconds = m.1;
        fs.mtime = Some(time);
    }
    fs
}
fn link_of(l: &Value) -> PBLink<'static> {
    PBLink {
        Hash: optn(&l["h"], |h| Cow::Owned(bn(h))),
        Name: optn(&l["n"], |n| Cow::Owned(String::from_utf8(bn(n)).expect("name"))),
        Tsize: optn(&l["ts"], un),
    }
}

/// {"fs", "links", "d"}: values put together by the caller, written and read back
pub fn run(scn: &Value) -> Vec<Value> {
    let mut t = vec![json!({})];
    let links: Vec<_> = arr(&scn["links"]).iter().map(link_of).collect();
    let flat = FlatUnixFs { links: links.clone(), data: fs_of(&scn["fs"]) };
    let node = PBNode { Links: links, Data: optn(&scn["d"], |d| Cow::Owned(bn(d))) };
    for l in &flat.links {
        out("link", link_json(l), l, &mut t);
    }
    out("fs", json!({"fs": scn["fs"]}), &flat.data, &mut t);
    let buf = out("flat", json!({"fs": scn["fs"], "links": scn["links"]}), &flat, &mut t);
    let o = guarded(|| match FlatUnixFs::try_parse(&buf) {
        Err(e) => failed(&format!("{:?}", e)),
        Ok(f) => ok(flat_json(&f)),
    });
    t.push(json!({"ev": "back", "val": {"fs": scn["fs"], "links": scn["links"]}, "o": o}));
    let buf = out("node", json!({"d": scn["d"], "links": scn["links"]}), &node, &mut t);
    let o = guarded(|| match PBNode::try_from(&buf[..]) {
        Err(_) => failed("Protobuf"),
        Ok(n) => ok(node_json(&n)),
    });
    t.push(json!({"ev": "back", "val": {"d": scn["d"], "links": scn["links"]}, "o": o}));
    t
}
