//! Demonstrates each genuine defect that was found in unixfs-v1 at the pinned commit. Every line
//! prints `<id> ok` or `<id> DEFECT <what happened>`; exit code 1 when any defect is present.
use std::panic::{catch_unwind, AssertUnwindSafe};
use libipld::Cid;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{FlatUnixFs, Metadata};
use uxf_harness::dag::*;

fn link(c: &Cid, name: &str) -> Link {
    Link { hash: Some(c.to_bytes()), name: Some(name.as_bytes().to_vec()), tsize: Some(1) }
}
fn leaf(d: &[u8]) -> Vec<u8> {
    Node::fs(Fs { data: Some(d.to_vec()), filesize: Some(d.len() as u64), ..Fs::new(FILE) }).encode()
}
fn hamt(links: Vec<Link>) -> Vec<u8> {
    Node::fs(Fs { hash_type: Some(34), fanout: Some(256), ..Fs::new(HAMT) }).with_links(links).encode()
}
fn dir(links: Vec<Link>) -> Vec<u8> {
    Node::fs(Fs::new(DIR)).with_links(links).encode()
}
/// Walks from blocks[0]; every pending link is looked up in blocks. Returns events.
fn walk(blocks: &[Vec<u8>]) -> Result<Vec<String>, String> {
    let cid = cid_of(&blocks[0]);
    let mut w = Walker::new(cid, "r".into());
    let mut out = vec![];
    while w.should_continue() {
        let c = *w.pending_links().0;
        let b = blocks.iter().find(|b| cid_of(b) == c).unwrap();
        match w.next(b, &mut None) {
            Err(e) => return Err(format!("{:?} / {}", e, e)),
            Ok(e) => out.push(match e {
                ContinuedWalk::Bucket(c2, p) => format!("B{} {}", (*c2 == c), p.display()),
                ContinuedWalk::Directory(c2, p, _) => format!("D{} {}", (*c2 == c), p.display()),
                ContinuedWalk::RootDirectory(c2, p, _) => format!("R{} {}", (*c2 == c), p.display()),
                ContinuedWalk::File(s, _, p, ..) => format!("F {} {:?}", p.display(), s.as_bytes()),
                ContinuedWalk::Symlink(_, c2, p, _) => format!("S{} {}", (*c2 == c), p.display()),
            }),
        }
    }
    Ok(out)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = false;
    let mut t = |id: &str, f: &mut dyn FnMut() -> Result<(), String>| {
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        match r {
            Ok(Ok(())) => println!("{} ok", id),
            Ok(Err(e)) => { bad = true; println!("{} DEFECT {}", id, e) }
            Err(p) => {
                bad = true;
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("{} DEFECT panic: {}", id, m)
            }
        }
    };
    let l = leaf(b"abc");
    let lc = cid_of(&l);

    t("F1 leaf without filesize", &mut || {
        let b = Node::fs(Fs { data: Some(b"abc".to_vec()), ..Fs::new(FILE) }).encode();
        let r = IdleFileVisit::default().start(&b).map_err(|e| e.to_string())?;
        if r.0 == b"abc" && r.1 == 3 { Ok(()) } else { Err(format!("{:?}", r)) }
    });
    t("F2 offset + filesize overflow", &mut || {
        let b = Node::fs(Fs { filesize: Some(u64::MAX), blocksizes: vec![u64::MAX, 10], ..Fs::new(FILE) })
            .with_links(vec![link(&lc, ""), link(&lc, "")]).encode();
        match IdleFileVisit::default().start(&b) { Err(_) => Ok(()), Ok(_) => Err("accepted".into()) }
    });
    t("F3 range past short content", &mut || {
        let b = Node::fs(Fs { filesize: Some(10), blocksizes: vec![10], ..Fs::new(FILE) }).with_links(vec![link(&lc, "")]).encode();
        let (_, _, _, v) = IdleFileVisit::default().with_target_range(5..8).start(&b).map_err(|e| e.to_string())?;
        match v.unwrap().continue_walk(&l, &mut None) { Err(_) => Ok(()), Ok((b, _)) if b.is_empty() => Ok(()), Ok((b, _)) => Err(format!("{:?}", b)) }
    });
    t("F4 visit without pending links", &mut || {
        let inner = Node::fs(Fs { filesize: Some(10), blocksizes: vec![3], ..Fs::new(FILE) }).with_links(vec![link(&lc, "")]).encode();
        let b = Node::fs(Fs { filesize: Some(10), blocksizes: vec![10], ..Fs::new(FILE) }).with_links(vec![link(&cid_of(&inner), "")]).encode();
        let (_, _, _, v) = IdleFileVisit::default().with_target_range(5..8).start(&b).map_err(|e| e.to_string())?;
        match v.unwrap().continue_walk(&inner, &mut None) { Ok((_, Some(v))) => { let _ = v.pending_links().0; Ok(()) } _ => Ok(()) }
    });
    for (i, n) in ["", "a/b", "."].iter().enumerate() {
        t(&format!("F5/F15 directory link name {:?}", n), &mut || {
            let b = dir(vec![link(&lc, "x"), link(&lc, n), link(&lc, "z")]);
            match walk(&[b, l.clone()]) { Err(_) => Ok(()), Ok(e) => Err(format!("{:?} {}", e, i)) }
        });
    }
    for n in ["", "a", "aä", "AAb/c", "AA."] {
        t(&format!("F6/F15 hamt link name {:?}", n), &mut || {
            let b = hamt(vec![link(&lc, "AAx"), link(&lc, n)]);
            match walk(&[b, l.clone()]) { Err(_) => Ok(()), Ok(e) => Err(format!("{:?}", e)) }
        });
    }
    t("F7 bucket after a directory", &mut || {
        let d = dir(vec![]);
        let k = hamt(vec![link(&lc, "AAx")]);
        let b = hamt(vec![link(&cid_of(&d), "AAd"), link(&cid_of(&k), "BB")]);
        let e = walk(&[b, d, k, l.clone()])?;
        if e.len() == 4 { Ok(()) } else { Err(format!("{:?}", e)) }
    });
    t("F8 cid of first bucket under the root", &mut || {
        let k = hamt(vec![link(&lc, "AAx")]);
        let b = hamt(vec![link(&cid_of(&k), "BB")]);
        let e = walk(&[b, k, l.clone()])?;
        if e[1] == "Btrue r" { Ok(()) } else { Err(format!("{:?}", e)) }
    });
    t("F9 unparsable later file block", &mut || {
        let raw = vec![0xffu8; 3];
        let b = Node::fs(Fs { filesize: Some(3), blocksizes: vec![3], ..Fs::new(FILE) }).with_links(vec![link(&cid_of(&raw), "")]).encode();
        match walk(&[b, raw]) { Err(_) => Ok(()), Ok(e) => Err(format!("{:?}", e)) }
    });
    t("F10 wrap_node_data of empty data", &mut || {
        let b = vec![0x0au8, 0];
        let d = unixfs_v1::dagpb::wrap_node_data(b).map_err(|e| e.to_string())?;
        if d.node_data().is_empty() { Ok(()) } else { Err("not empty".into()) }
    });
    t("F11 sharded lookup over multibyte name", &mut || {
        let b = hamt(vec![link(&lc, "aä")]);
        unixfs_v1::resolve(&b, "x", &mut None).map(|_| ()).map_err(|e| e.to_string())
    });
    t("F12 set_metadata on existing single root entry", &mut || {
        let mut b = BufferingTreeBuilder::new(TreeOptions::default());
        b.put_link("a/b", lc, 1).unwrap();
        b.set_metadata("a", Metadata::default()).map_err(|e| e.to_string())
    });
    t("F13 set_metadata is rendered", &mut || {
        let mut b = BufferingTreeBuilder::new(TreeOptions::default());
        let fs = Node::fs(Fs { mode: Some(0o755), mtime: Some((7, Some(9))), ..Fs::new(DIR) }).encode();
        let md = Metadata::from(&FlatUnixFs::try_parse(&fs).unwrap().data);
        b.set_metadata("a", md.clone()).unwrap();
        let n = b.build().next().unwrap().unwrap();
        let got = Metadata::from(&FlatUnixFs::try_parse(&n.block).unwrap().data);
        if md == got { Ok(()) } else { Err(format!("{:?}", got)) }
    });
    t("F16 non-HAMT bucket", &mut || {
        let b = hamt(vec![link(&lc, "AA")]);
        match walk(&[b, l.clone()]) { Err(_) => Ok(()), Ok(e) => Err(format!("{:?}", e)) }
    });
    t("F17 iterating past an error", &mut || {
        let mut o = TreeOptions::default();
        o.block_size_limit(Some(1));
        let mut b = BufferingTreeBuilder::new(o);
        b.put_link("a/b/c", lc, 1).unwrap();
        let mut it = b.build();
        let first = it.next();
        let second = it.next();
        if matches!(first, Some(Err(_))) && second.is_none() { Ok(()) } else { Err("unexpected".into()) }
    });
    t("F18 branching factor 1 never finishes", &mut || {
        let r = catch_unwind(|| BalancedCollector::with_branching_factor(1));
        match r {
            Err(_) => Ok(()),
            Ok(c) => {
                let mut a = FileAdder::builder().with_chunker(Chunker::Size(1)).with_collector(c).build();
                for _ in 0..2 { let _ = a.push(b"x").0.count(); }
                let n = a.finish().take(100_000).count();
                if n < 100_000 { Ok(()) } else { Err("over 100000 blocks for two bytes".into()) }
            }
        }
    });
    t("F22 root name of multiple components", &mut || {
        let f = l.clone();
        let d = Node::fs(Fs::new(DIR)).with_links(vec![link(&lc, "x"), link(&lc, "y")]).encode();
        let mut w = unixfs_v1::walk::Walker::new(cid_of(&d), "a/b".into());
        let mut paths = vec![];
        for b in [&d, &f, &f].iter() {
            match w.next(b, &mut None).map_err(|e| e.to_string())? {
                unixfs_v1::walk::ContinuedWalk::File(_, _, p, _, _) => paths.push(p.display().to_string()),
                _ => {}
            }
        }
        if paths == ["a/b/x", "a/b/y"] { Ok(()) } else { Err(format!("{:?}", paths)) }
    });
    t("F21 file_size during a visit", &mut || {
        let b = Node::fs(Fs { filesize: Some(6), blocksizes: vec![3, 3], ..Fs::new(FILE) }).with_links(vec![link(&lc, ""), link(&lc, "")]).encode();
        let (_, _, _, v) = IdleFileVisit::default().start(&b).map_err(|e| e.to_string())?;
        let (_, v) = v.unwrap().continue_walk(&l, &mut None).map_err(|e| e.to_string())?;
        let n = v.unwrap().file_size();
        if n == 6 { Ok(()) } else { Err(format!("{}", n)) }
    });
    std::process::exit(bad as i32);
}
