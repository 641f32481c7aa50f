//! Runs small programs of several threads over one world under many schedules, and records the histories.
//!
//! A program: `P <name>`, `S <op>` (before), `<thread number> <op>` (thread 1, 2, ...), `F <op>` (after),
//! `L <op>` (a separate look at the world that ends the program).
//! In a thread's operations `$` is the last id that thread was given.
use crate::comps;
use crate::interp::{Ctx, Ev};
use parking_lot::vsched::{self, Choice, LogEv, Outcome};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
pub struct Program {
    pub name: String,
    pub setup: Vec<String>,
    pub threads: Vec<Vec<String>>,
    pub fin: Vec<String>,
    pub schedule: Option<Vec<usize>>, // run only this one
    pub free: bool,                   // or only with threads that nobody schedules
}
pub fn parse(text: &str) -> Vec<Program> {
    let mut v: Vec<Program> = vec![];
    for l in text.lines() {
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (k, rest) = l.split_once(' ').unwrap();
        match k {
            "P" => v.push(Program { name: rest.to_string(), ..Default::default() }),
            "S" => v.last_mut().unwrap().setup.push(rest.to_string()),
            "F" => v.last_mut().unwrap().fin.push(rest.to_string()),
            "X" if rest == "free" => v.last_mut().unwrap().free = true,
            "X" if rest == "random" => {}
            "X" => v.last_mut().unwrap().schedule = Some(rest.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            n => {
                let p = v.last_mut().unwrap();
                let n: usize = n.parse().unwrap();
                while p.threads.len() < n {
                    p.threads.push(vec![]);
                }
                p.threads[n - 1].push(rest.to_string());
            }
        }
    }
    v
}

pub struct Cfg {
    pub bound: usize,  // preemptions explored systematically
    pub max: usize,    // schedules per program, systematic
    pub random: usize, // and random ones
    pub free: usize,   // and runs with threads that nobody schedules
    pub serial: bool,  // only schedules that switch between operations
    pub seed: u64,
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 11) % n as u64) as usize
    }
}

pub struct Record {
    pub body: String, // JSON without the id
    pub schedule: Vec<usize>,
    pub dead: bool,
    pub free: bool,
    pub lines: Vec<String>,
}
fn join(v: &[Ev]) -> String {
    v.iter().map(|e| e.json()).collect::<Vec<_>>().join(",")
}

type Policy = Box<dyn FnMut(&[usize], Option<usize>) -> usize + Send>;
/// One execution.
fn execute(p: &Program, prefix: Vec<usize>, policy: Policy, serial: bool, locks: bool) -> (Record, Vec<Choice>, Vec<LogEv>) {
    execute_with(p, false, |bodies| vsched::run(bodies, prefix, policy, locks, !serial))
}
type Bodies = Vec<Box<dyn FnOnce() + Send>>;
fn execute_with(p: &Program, free: bool, run: impl FnOnce(Bodies) -> Outcome) -> (Record, Vec<Choice>, Vec<LogEv>) {
    comps::reset();
    let mut main = Ctx::new();
    let pre: Vec<Ev> = p.setup.iter().map(|l| main.exec(l)).collect();
    let n = p.threads.len();
    let results: Arc<Mutex<Vec<Vec<Ev>>>> = Arc::new(Mutex::new((0..n).map(|_| vec![]).collect()));
    let mut bodies: Bodies = vec![];
    for (t, ops) in p.threads.iter().enumerate() {
        let mut ctx = main.share();
        let (ops, results) = (ops.clone(), results.clone());
        bodies.push(Box::new(move || {
            let ctx = &mut ctx;
            let mut last = String::from("1");
            for o in ops {
                let line = o.replace('$', &last);
                vsched::turn();
                vsched::mark("c".into());
                let e = ctx.exec(&line);
                vsched::mark("r".into());
                if (e.line == "new" || e.line == "hc" || e.line == "bc") && !e.v.is_empty() {
                    last = e.v[0].to_string();
                }
                results.lock().unwrap()[t].push(e);
            }
        }));
    }
    let Outcome { choices, log, deadlock, blocked, .. } = run(bodies);
    let schedule: Vec<usize> = choices.iter().map(|c| c.chosen).collect();
    let mut h = vec![];
    let mut escaped = false;
    let mut lines = vec![];
    for e in &log {
        if let LogEv::Mark(t, m) = e {
            match m.as_str() {
                "c" => h.push((*t + 1) as i64),
                "r" => h.push(-((*t + 1) as i64)),
                _ => escaped = true,
            }
        }
    }
    let res = std::mem::take(&mut *results.lock().unwrap());
    for (t, r) in res.iter().enumerate() {
        for e in r {
            lines.push(format!("{} {}   -> {} {}", t + 1, e.line, e.json(), e.msg));
        }
    }
    let hs = h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let ops = res.iter().map(|r| format!("[{}]", join(r))).collect::<Vec<_>>().join(",");
    if deadlock || escaped {
        let b: Vec<String> = blocked.iter().map(|(t, w)| format!("[{},\"{}\"]", t + 1, w.split('@').next().unwrap())).collect();
        main.abandon();
        let body = format!("\"dead\":1,\"blocked\":[{}],\"h\":[{hs}],\"ops\":[{ops}]", b.join(","));
        return (Record { body, schedule, dead: true, free, lines }, choices, log);
    }
    let post: Vec<Ev> = p.fin.iter().map(|l| main.exec(l)).collect();
    for e in &post {
        lines.push(format!("F {}   -> {} {}", e.line, e.json(), e.msg));
    }
    drop(main);
    let body = format!("\"pre\":[{}],\"h\":[{hs}],\"ops\":[{ops}],\"post\":[{}]", join(&pre), join(&post));
    (Record { body, schedule, dead: false, free, lines }, choices, log)
}

fn default_policy() -> Policy {
    Box::new(|en, cur| cur.unwrap_or(en[0]))
}

pub struct Stats {
    pub schedules: usize,
    pub points: usize,
    pub histories: usize,
    pub complete: bool,
}

/// Explores schedules of one program. Calls `found` once per distinct outcome.
pub fn explore(p: &Program, cfg: &Cfg, pulse: &mut dyn FnMut(&str), found: &mut dyn FnMut(Record)) -> Stats {
    let mut seen: HashSet<String> = HashSet::new();
    let mut st = Stats { schedules: 0, points: 0, histories: 0, complete: true };
    let mut take = |r: Record, st: &mut Stats, ch: usize| {
        st.schedules += 1;
        st.points += ch;
        if seen.insert(r.body.clone()) {
            st.histories += 1;
            found(r);
        }
    };
    if let Some(x) = &p.schedule {
        pulse(&show(x));
        let (r, ch, _) = execute(p, x.clone(), default_policy(), cfg.serial, false);
        take(r, &mut st, ch.len());
        return st;
    }
    let mut rng = Rng(cfg.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    for b in p.name.bytes() {
        rng.0 = (rng.0 ^ b as u64).wrapping_mul(0x100_0000_01B3) | 1;
    }
    if p.free {
        for i in 0..20000 {
            let seed = rng.0 ^ (i as u64) << 17;
            pulse("free");
            let (r, ..) = execute_with(p, true, |b| vsched::run_free(b, seed));
            if !r.dead {
                take(r, &mut st, 0);
            }
        }
        return st;
    }
    // systematic
    let mut stack: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    let mut runs = 0;
    while !stack.is_empty() {
        if runs >= cfg.max {
            st.complete = false;
            break;
        }
        // any order will do; a random one spreads a limited budget over the program
        let k = rng.below(stack.len());
        let (prefix, used) = stack.swap_remove(k);
        runs += 1;
        let from = prefix.len();
        pulse(&show(&prefix));
        let (r, ch, _) = execute(p, prefix, default_policy(), cfg.serial, false);
        for (i, c) in ch.iter().enumerate().skip(from) {
            for &a in &c.enabled {
                if a == c.chosen || (cfg.serial && c.cur.is_some() && !c.turn) {
                    continue;
                }
                let cost = used + c.cur.is_some() as usize;
                if !cfg.serial && cost > cfg.bound {
                    continue;
                }
                let mut q: Vec<usize> = ch[..i].iter().map(|c| c.chosen).collect();
                q.push(a);
                stack.push((q, cost));
            }
        }
        take(r, &mut st, ch.len());
    }
    // random
    for _ in 0..cfg.random {
        let mut r2 = Rng(rng.0 ^ rng.below(usize::MAX >> 8) as u64 | 1);
        let stay = [0, 2, 6, 20][rng.below(4)];
        pulse("random");
        let pol: Policy = Box::new(move |en, cur| match cur {
            Some(c) if r2.below(stay + 1) != 0 => c,
            _ => en[r2.below(en.len())],
        });
        let (r, ch, _) = execute(p, vec![], pol, cfg.serial, false);
        take(r, &mut st, ch.len());
    }
    for _ in 0..cfg.free {
        let seed = rng.0 ^ rng.below(usize::MAX >> 8) as u64;
        pulse("free");
        let (r, ..) = execute_with(p, true, |b| vsched::run_free(b, seed));
        // what blocks is found by the schedules that are explored
        if !r.dead {
            take(r, &mut st, 0);
        }
    }
    st
}
fn show(x: &[usize]) -> String {
    x.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}

/// The locks the calls of a program's first thread take and give back, in order, by name (spec/LockPrograms): M the table of entities,
/// a component or resource its storage, g0, g1, ... any others (the groups) by address.
pub fn lock_trace(p: &Program) -> String {
    comps::reset();
    let mut main = Ctx::new();
    for l in &p.setup {
        main.exec(l);
    }
    let mut names: HashMap<usize, String> = HashMap::new();
    for (op, name) in [("xe 1", "M"), ("sl A", "A"), ("sl B", "B"), ("sl C", "C"), ("rg P", "P")] {
        vsched::seq_log_start();
        main.exec(op);
        for (_, a) in vsched::seq_log_take() {
            names.entry(a).or_insert(name.to_string());
        }
    }
    // the program's last section goes through what else there is
    vsched::seq_log_start();
    for l in &p.fin {
        main.exec(l);
    }
    let mut others: Vec<usize> = vsched::seq_log_take().iter().map(|x| x.1).filter(|a| !names.contains_key(a)).collect();
    others.sort();
    others.dedup();
    for (i, a) in others.iter().enumerate() {
        names.insert(*a, format!("g{i}"));
    }
    let mut ctx = main.share();
    let mut log = vec![];
    let mut last = String::from("1");
    let mut stuck = false;
    for o in &p.threads[0] {
        vsched::seq_log_start();
        let e = ctx.exec(&o.replace('$', &last));
        log.extend(vsched::seq_log_take());
        if (e.line == "new" || e.line == "hc" || e.line == "bc") && !e.v.is_empty() {
            last = e.v[0].to_string();
        }
        stuck |= e.k == "block";
    }
    for (_, a) in &log {
        let n = names.len();
        names.entry(*a).or_insert(format!("x{n}"));
    }
    let v: Vec<String> = log.iter().map(|(k, a)| format!("[\"{}\",\"{}\"]", k, names[a])).collect();
    drop(ctx);
    if stuck {
        main.abandon();
    }
    format!("[{}]", v.join(","))
}

pub fn main(text: &str, cfg: &Cfg, out: &mut dyn Write, sched: &mut dyn Write, pulse: &mut dyn FnMut(&Program, &str), verbose: bool) {
    for p in parse(text) {
        let mut n = 0;
        let name = p.name.clone();
        let mut found = |r: Record| {
            let id = format!("{}/{}", name, n);
            n += 1;
            writeln!(out, "{{\"id\":\"{id}\",{}}}", r.body).unwrap();
            writeln!(sched, "{id} {}", if r.free { "free".into() } else { show(&r.schedule) }).unwrap();
            if verbose {
                for l in &r.lines {
                    println!("{l}");
                }
            }
            if r.dead {
                writeln!(sched, "# deadlock").unwrap();
            }
        };
        let st = explore(&p, cfg, &mut |x| pulse(&p, x), &mut found);
        writeln!(sched, "= {} {} {} {} {}", p.name, st.schedules, st.points, st.histories, st.complete as usize).unwrap();
    }
}
