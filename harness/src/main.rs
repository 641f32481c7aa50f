mod catalog;
mod comps;
mod conc;
mod interp;
mod random;
mod rows;
use std::collections::BTreeMap;
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static PULSE: AtomicU64 = AtomicU64::new(0);

// One call that does not come back within this time is reported as a hang.
const HANG_S: u64 = 12;
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (PULSE.load(SeqCst), 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PULSE.load(SeqCst);
            last = if now == last.0 && now != u64::MAX { (now, last.1 + 1) } else { (now, 0) };
            if last.1 >= HANG_S {
                eprintln!("HANG");
                std::process::exit(97);
            }
        }
    });
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: usize) -> usize {
        self.get(k).map_or(d, |s| s.parse().unwrap())
    }
}

/// The operations of the trace that is running, so that a crash can be replayed.
struct Status(Option<std::fs::File>, Option<String>, String);
impl Status {
    fn trace(&mut self, id: &str) {
        if let Some(p) = &self.1 {
            self.0 = Some(std::fs::File::create(p).unwrap());
            self.op(&format!("T {id}"));
        }
    }
    fn schedule(&mut self, p: &conc::Program, x: &str) {
        PULSE.fetch_add(1, SeqCst);
        let of = format!("{} {}", p.name, x);
        if x == "free" && self.2 == of {
            return;
        }
        self.2 = of;
        if let Some(path) = &self.1 {
            std::fs::write(path, format!("T {}\nX {}\n", p.name, x)).unwrap();
        }
    }
    fn op(&mut self, line: &str) {
        PULSE.fetch_add(1, SeqCst);
        if let Some(f) = &mut self.0 {
            f.write_all(format!("{line}\n").as_bytes()).unwrap();
        }
    }
}

fn write_trace(out: &mut dyn Write, ops: &mut Option<BufWriter<std::fs::File>>, id: &str, evs: &[interp::Ev]) {
    let v: Vec<String> = evs.iter().map(|e| e.json()).collect();
    writeln!(out, "{{\"id\":\"{id}\",\"ev\":[{}]}}", v.join(",")).unwrap();
    if let Some(f) = ops {
        writeln!(f, "T {id}").unwrap();
        for e in evs {
            writeln!(f, "{}", e.line).unwrap();
        }
        f.flush().unwrap();
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    for a in it {
        let (k, v) = a.split_once('=').expect("arguments are key=value");
        m.insert(k.to_string(), v.to_string());
    }
    let a = Args(m);
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let mut status = Status(None, a.get("status").map(|s| s.to_string()), String::new());
    let mut out: Box<dyn Write> = match a.get("out") {
        Some(p) => Box::new(BufWriter::new(std::fs::File::create(p).unwrap())),
        None => Box::new(std::io::stdout()),
    };
    let mut ops = a.get("ops").map(|p| BufWriter::new(std::fs::File::create(p).unwrap()));
    match cmd.as_str() {
        // run given operations
        "replay" => {
            let f = std::io::BufReader::new(std::fs::File::open(a.get("in").unwrap()).unwrap());
            // a world after the other is operated on; the rest wait
            let (mut world, mut parked) = (1i64, BTreeMap::<i64, interp::Ctx>::new());
            let mut cur: Option<(String, interp::Ctx, Vec<interp::Ev>)> = None;
            let verbose = a.get("verbose").is_some();
            let mut finish = |c: Option<(String, interp::Ctx, Vec<interp::Ev>)>, out: &mut dyn Write| {
                if let Some((id, ctx, evs)) = c {
                    drop(ctx);
                    write_trace(out, &mut None, &id, &evs);
                }
            };
            for line in f.lines() {
                let line = line.unwrap();
                if line.is_empty() || line.starts_with('#') {
                    continue;
                }
                if let Some(id) = line.strip_prefix("T ") {
                    finish(cur.take(), &mut out);
                    for (n, c) in std::mem::take(&mut parked) {
                        comps::in_world(n);
                        drop(c);
                    }
                    world = 1;
                    comps::reset();
                    status.trace(id);
                    cur = Some((id.to_string(), interp::Ctx::new(), vec![]));
                    continue;
                }
                let c = cur.as_mut().unwrap();
                status.op(&line);
                if let Some(n) = line.strip_prefix("sw ") {
                    let n: i64 = n.parse().unwrap();
                    if n != world {
                        let next = parked.remove(&n).unwrap_or_else(interp::Ctx::new);
                        parked.insert(world, std::mem::replace(&mut c.1, next));
                        world = n;
                        comps::in_world(n);
                    }
                    c.2.push(interp::Ev { line: line.clone(), k: "ok", ..Default::default() });
                    continue;
                }
                let e = c.1.exec(&line);
                if verbose {
                    println!("{}   -> {} {}", line, e.json(), e.msg);
                }
                c.2.push(e);
            }
            finish(cur.take(), &mut out);
        }
        // random histories
        "random" => {
            let mut w = BTreeMap::new();
            for p in a.get("w").unwrap_or("new:8,att:30,det:14,rem:6").split(',') {
                let (k, v) = p.split_once(':').unwrap();
                w.insert(k.to_string(), v.parse().unwrap());
            }
            let cfg = random::Cfg {
                len: a.num("len", 40),
                cap: a.num("cap", 10),
                many: a.num("many", 8),
                types: a.get("types").unwrap_or("ABCDE").to_string(),
                mask: a.get("mask").unwrap_or("er").to_string(),
                w,
                groups: a.num("groups", 50),
                batch: a.num("batch", 4),
                start: a.num("start", 0),
                fat: a.num("fat", 60),
                full: a.num("full", 0),
                churn: a.num("churn", 300),
                every: a.num("every", 1),
            };
            let seed = a.num("seed", 1) as u64;
            for i in 0..a.num("traces", 10) {
                let id = format!("r{}.{}", seed, i);
                status.trace(&id);
                let evs = random::Run::go(&cfg, seed.wrapping_mul(1_000_003) + i as u64, &mut |l| status.op(l));
                write_trace(&mut out, &mut ops, &id, &evs);
            }
        }
        // programs of several threads
        "conc" => {
            let text = std::fs::read_to_string(a.get("in").unwrap()).unwrap();
            let cfg = conc::Cfg {
                bound: a.num("bound", 2),
                max: a.num("max", 300),
                random: a.num("random", 0),
                free: a.num("free", 0),
                serial: a.num("serial", 0) == 1,
                seed: a.num("seed", 1) as u64,
            };
            let mut sched: Box<dyn Write> = match a.get("sched") {
                Some(p) => Box::new(BufWriter::new(std::fs::File::create(p).unwrap())),
                None => Box::new(std::io::sink()),
            };
            conc::main(&text, &cfg, &mut out, &mut sched, &mut |p, x| status.schedule(p, x), a.get("verbose").is_some());
            sched.flush().unwrap();
        }
        "locks" => {
            let text = std::fs::read_to_string(a.get("in").unwrap()).unwrap();
            for p in conc::parse(&text) {
                status.schedule(&p, "");
                writeln!(out, "{{\"id\":\"{}\",\"locks\":{}}}", p.name, conc::lock_trace(&p)).unwrap();
            }
        }
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2);
        }
    }
    PULSE.store(u64::MAX, SeqCst);
    out.flush().unwrap();
    if let Some(mut f) = ops {
        f.flush().unwrap();
    }
}
