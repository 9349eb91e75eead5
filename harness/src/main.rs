//! uxf-harness drive SUITE SEED COUNT SHARDS OUT     random scenarios of a suite
//! uxf-harness gen SUITE SEED ID                     one scenario of a suite
//! uxf-harness exec FILE SHARDS OUT                   scenarios, one JSON per line
//! Traces are written to OUT.<shard>.ndjson.
use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};
use uxf_harness::rng::Rng;

/// Seconds after which a scenario counts as hanging.
const HANG: u64 = 30;
/// Hangs after which the remaining scenarios are not executed.
const HANGS: u64 = 3;

/// Runs the scenario on a thread of its own, to notice that it does not end.
struct Runner {
    tx: std::sync::mpsc::Sender<(u64, Value)>,
    rx: std::sync::mpsc::Receiver<Vec<Value>>,
    hangs: u64,
}

impl Runner {
    fn new() -> Runner {
        let (tx, scns) = std::sync::mpsc::channel::<(u64, Value)>();
        let (traces, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                for (id, s) in scns {
                    if traces.send(uxf_harness::exec::run(id, &s)).is_err() {
                        return;
                    }
                }
            })
            .unwrap();
        Runner { tx, rx, hangs: 0 }
    }
    fn run(&mut self, id: u64, s: &Value) -> Vec<Value> {
        self.tx.send((id, s.clone())).unwrap();
        match self.rx.recv_timeout(std::time::Duration::from_secs(HANG)) {
            Ok(t) => t,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                // the hanging thread is left behind
                let hangs = self.hangs + 1;
                *self = Runner::new();
                self.hangs = hangs;
                let mut b = s.clone();
                b["ev"] = "begin".into();
                b["id"] = id.into();
                vec![b, serde_json::json!({"ev": "hang", "o": {"k": "panic", "msg": "does not end"}}), serde_json::json!({"ev": "end"})]
            }
            Err(e) => panic!("harness thread: {}", e),
        }
    }
}

fn write(ids: bool, shards: usize, out: &str, scns: impl Iterator<Item = (u64, Value)>) {
    let mut files: Vec<_> = (0..shards)
        .map(|i| BufWriter::new(std::fs::File::create(format!("{}.{}.ndjson", out, i)).unwrap()))
        .collect();
    let (mut n, mut events) = (0u64, 0u64);
    let mut runner = Runner::new();
    for (id, s) in scns {
        if runner.hangs >= HANGS {
            break;
        }
        if ids {
            eprintln!("{}", s);
        }
        let t = runner.run(id, &s);
        let f = &mut files[(n % shards as u64) as usize];
        for e in &t {
            serde_json::to_writer(&mut *f, e).unwrap();
            f.write_all(b"\n").unwrap();
        }
        n += 1;
        events += t.len() as u64 - 2;
    }
    println!("scenarios={} events={}", n, events);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    // prints every scenario before it is run
    let ids = a.last().map(|x| x == "--ids").unwrap_or(false);
    match a[0].as_str() {
        "drive" => {
            let (seed, count): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let suite = a[1].clone();
            write(ids, a[4].parse().unwrap(), &a[5], (0..count).map(move |i| {
                let mut r = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i));
                (i + 1, uxf_harness::gen::suite(&suite, &mut r))
            }));
        }
        "gen" => {
            let (seed, id): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let mut r = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(id - 1));
            println!("{}", uxf_harness::gen::suite(&a[1], &mut r));
        }
        "exec" => {
            let f = BufReader::new(std::fs::File::open(&a[1]).unwrap());
            write(ids, a[2].parse().unwrap(), &a[3], f.lines().enumerate().filter_map(|(i, l)| {
                let l = l.unwrap();
                if l.trim().is_empty() { return None; }
                let v: Value = serde_json::from_str(&l).unwrap();
                Some((v.get("id").and_then(|x| x.as_u64()).unwrap_or(i as u64 + 1), v))
            }));
        }
        x => panic!("unknown command {}", x),
    }
}
