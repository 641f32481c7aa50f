//! Random histories: picks operations, runs them, observes after every one.
use crate::catalog::META;
use crate::interp::{Ctx, Ev, HUGE};
use std::collections::BTreeMap;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Cfg {
    pub len: usize,
    pub cap: usize,
    pub many: usize, // how often (percent) there are many types
    pub types: String,
    pub mask: String,
    pub w: BTreeMap<String, usize>,
    pub groups: usize, // percentage of traces that make groups at the start
    pub batch: usize,  // largest batch
    pub start: usize,  // entities there are at the start
    pub full: usize,   // how many queries are gone through at the end, when there are many rows
    pub fat: usize,    // percentage of the component types that batches at the start get
    pub churn: usize,  // how often the same is done over and over
    pub every: usize,  // look after every so many operations
}

pub struct Run<'a> {
    c: Ctx,
    pub ev: Vec<Ev>,
    cfg: &'a Cfg,
    rng: Rng,
    alive: Vec<i64>,
    gone: Vec<i64>,
    recent: Vec<i64>, // ids that last came or went
    seen: Vec<i64>, // ids that may have components
    max: i64,
    reg: Vec<char>,
    groups: Vec<(char, char, char)>,
    val: i64,
    open_b: Option<usize>,
    sink: &'a mut dyn FnMut(&str),
}

impl<'a> Run<'a> {
    pub fn go(cfg: &'a Cfg, seed: u64, sink: &'a mut dyn FnMut(&str)) -> Vec<Ev> {
        crate::comps::reset();
        let mut r = Run {
            c: Ctx::new(), ev: vec![], cfg, rng: Rng::new(seed), alive: vec![], gone: vec![], recent: vec![], seen: vec![], max: 0,
            reg: vec![], groups: vec![], val: 1, open_b: None, sink,
        };
        r.main();
        r.ev
    }
    fn x(&mut self, line: String) -> &Ev {
        (self.sink)(&line);
        let e = self.c.exec(&line);
        if e.k == "panic" && e.msg.starts_with("harness:") {
            panic!("{}: {}", line, e.msg);
        }
        self.ev.push(e);
        self.ev.last().unwrap()
    }
    fn v(&mut self, t: char) -> i64 {
        if t == 'C' { return 0; }
        self.val += 1;
        self.val
    }
    fn w(&self, k: &str) -> usize {
        *self.cfg.w.get(k).unwrap_or(&0)
    }
    fn any_id(&mut self) -> i64 {
        match self.rng.below(10) {
            0 if !self.gone.is_empty() => *self.rng.pick(&self.gone),
            1 => self.max + 1 + self.rng.below(3) as i64,
            2 => *[HUGE, 0x7fff_ff, 1000, self.max + 64].get(self.rng.below(4)).unwrap(),
            _ if !self.alive.is_empty() => *self.rng.pick(&self.alive),
            _ => 1,
        }
    }
    fn dead_id(&mut self) -> i64 {
        match self.rng.below(4) {
            0 | 1 if !self.gone.is_empty() => *self.rng.pick(&self.gone),
            2 => *[HUGE, 5000, self.max + 64].get(self.rng.below(3)).unwrap(),
            _ => self.max + 1 + self.rng.below(2) as i64,
        }
    }
    fn unreg(&mut self) -> Option<char> {
        let u: Vec<char> = "ABCDE".chars().filter(|t| !self.reg.contains(t)).collect();
        if u.is_empty() { None } else { Some(*self.rng.pick(&u)) }
    }
    fn ty(&mut self) -> char {
        *self.rng.pick(&self.reg)
    }
    // a live id, preferring ids close to each other so that entities meet
    fn live(&mut self) -> i64 {
        if self.alive.len() > 250 && self.rng.chance(15) {
            // near the powers of two
            let id = (64i64 << self.rng.below(7)) + self.rng.below(5) as i64 - 2;
            if self.alive.contains(&id) { return id; }
        }
        if self.alive.len() > 1 << 16 && self.rng.chance(40) {
            // beyond 16 bits
            let at = (1 << 16) + self.rng.below(self.alive.len() - (1 << 16));
            return self.alive[at];
        }
        *self.rng.pick(&self.alive)
    }
    fn via(&mut self) -> char {
        if self.rng.chance(35) { 'h' } else { 'w' }
    }
    fn note(&mut self, id: i64) {
        if self.recent.len() > 12 { self.recent.remove(0); }
        self.recent.push(id);
    }
    fn born(&mut self, id: i64) {
        self.note(id);
        self.gone.retain(|x| *x != id);
        if !self.alive.contains(&id) { self.alive.push(id); }
        self.max = self.max.max(id);
    }
    fn died(&mut self, id: i64) {
        self.note(id);
        self.alive.retain(|x| *x != id);
        if !self.gone.contains(&id) { self.gone.push(id); }
    }
    fn touch(&mut self, id: i64) {
        if !self.seen.contains(&id) { self.seen.push(id); }
    }
    fn do_reg(&mut self, t: char) {
        let ok = self.x(format!("reg {t}")).k == "ok";
        if ok && !self.reg.contains(&t) { self.reg.push(t); }
    }
    fn do_new(&mut self) {
        let e = self.x("new".into());
        if let Some(&id) = e.v.first() { self.born(id); }
    }
    fn do_att(&mut self, id: i64, t: char) {
        let (v, via) = (self.v(t), self.via());
        if self.x(format!("att {id} {t} {v} {via}")).k == "ok" { self.touch(id); }
    }
    fn do_mg(&mut self, k: char, a: char, b: char) {
        if self.x(format!("mg {k} {a} {b}")).k == "ok" && !self.groups.contains(&(k, a, b)) {
            self.groups.push((k, a, b));
        }
    }
    fn random_group(&mut self) {
        let k = *self.rng.pick(&['F', 'P', 'N', 'N', 'P']);
        // mostly pairs that the catalogue can query
        let known: Vec<(char, char)> = META.iter().filter(|m| m.class == 'G').map(|m| (m.groups[0].1, m.groups[0].2))
            .filter(|(a, b)| self.reg.contains(a) && self.reg.contains(b)).collect();
        let (a, b) = if !known.is_empty() && self.rng.chance(80) { *self.rng.pick(&known) } else {
            (*self.rng.pick(&['A', 'B', 'C', 'D', 'E']), *self.rng.pick(&['A', 'B', 'C', 'D', 'E']))
        };
        // non-owning groups of one type make little sense but are legal; owning ones are refused
        self.do_mg(k, a, b);
    }
    fn obs_groups(&mut self) {
        for g in self.groups.clone() {
            let qs: Vec<usize> = (0..META.len()).filter(|&i| META[i].class == 'G' && META[i].groups[0] == g).collect();
            if qs.is_empty() { continue; }
            let q = *self.rng.pick(&qs) + 1;
            let m = *self.rng.pick(&['i', 'i', 'n', 'w', 'm']);
            self.x(format!("q {q} {m}"));
        }
    }
    fn legal(&self, i: usize) -> bool {
        META[i].types.chars().all(|t| self.reg.contains(&t)) && META[i].groups.iter().all(|g| self.groups.contains(g))
    }
    fn pick_query(&mut self, class: char) -> Option<usize> {
        let qs: Vec<usize> = (0..META.len()).filter(|&i| (class == '*' || META[i].class == class) && self.legal(i)).collect();
        if qs.is_empty() { return None; }
        // prefer queries with groups when there are some
        let with: Vec<usize> = qs.iter().copied().filter(|&i| !META[i].groups.is_empty()).collect();
        if !with.is_empty() && self.rng.chance(40) { return Some(*self.rng.pick(&with) + 1); }
        Some(*self.rng.pick(&qs) + 1)
    }
    pub fn observe(&mut self) {
        let mut num = 0usize;
        let mask: Vec<char> = self.cfg.mask.chars().collect();
        let mut i = 0;
        while i < mask.len() {
            let c = mask[i];
            i += 1;
            num = num * 0 + 1;
            if i < mask.len() && mask[i].is_ascii_digit() {
                num = mask[i] as usize - '0' as usize;
                i += 1;
            }
            match c {
                'e' => {
                    let mut ids: Vec<i64> = (1..=self.max.min(30)).collect();
                    for k in 0..2 { ids.push(self.max + k); }
                    if self.rng.chance(20) { ids.extend([HUGE, 7_000_000]); }
                    for _ in 0..3 { if self.max > 30 { ids.push(1 + self.rng.below(self.max as usize) as i64); } }
                    ids.extend(&self.recent);
                    ids.retain(|x| *x > 0);
                    let s: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
                    self.x(format!("ex {}", s.join(",")));
                }
                'r' => {
                    let mut ids = self.seen.clone();
                    for i in self.recent.clone() { if !ids.contains(&i) { ids.push(i); } }
                    ids.push(self.max + 1);
                    if self.rng.chance(20) { ids.push(HUGE); ids.push(self.max + 70); }
                    let s: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
                    let s = s.join(",");
                    for t in self.reg.clone() { self.x(format!("rd {t} {s}")); }
                    if self.rng.chance(5) {
                        if let Some(t) = self.unreg() { self.x(format!("rd {t} {s}")); self.x(format!("hr {t}")); }
                    }
                }
                'G' => self.obs_groups(),
                'S' | 'T' | 'H' | 'W' => {
                    for _ in 0..num {
                        if let Some(q) = self.pick_query(c) {
                            let m = *self.rng.pick(&['i', 'i', 'n', 'w', 'm']);
                            self.x(format!("q {q} {m}"));
                        }
                    }
                }
                'l' => {
                    for (k, a, b) in self.groups.clone() {
                        if k != 'N' { self.x(format!("lay {k} {a} {b}")); }
                    }
                }
                'i' => for _ in 0..num { self.script() },
                'k' => { self.x("lk".into()); }
                'c' => for t in ['A', 'P', 'R', 'C', 'U', 'Q'] { self.x(format!("rg {t}")); },
                _ => {}
            }
        }
    }
    // Every query over one type or one group, when there are many rows.
    fn at_length(&mut self) {
        let scripts = self.cfg.mask.contains('i');
        let mut qs: Vec<usize> = (0..META.len()).filter(|&i| "SG".contains(META[i].class) && self.legal(i)).collect();
        for i in (1..qs.len()).rev() { let j = self.rng.below(i + 1); qs.swap(i, j); }
        for q in qs.into_iter().take(self.cfg.full) {
            let q = q + 1;
            if scripts || self.rng.chance(25) {
                let (a, b) = (self.rng.below(self.alive.len().max(1)), self.rng.below(90));
                let f = *self.rng.pick(&self.alive.clone());
                self.x(format!("it {q} - h k{b} h i n f{f} h k{a} h i c"));
            } else {
                let m = *self.rng.pick(&['i', 'i', 'n', 'w', 'm']);
                self.x(format!("q {q} {m}"));
            }
            if self.w("qw") > 0 && META[q - 1].muts > 0 && self.rng.chance(30) {
                let base = self.val + 1;
                let m = *self.rng.pick(&['i', 'n', 'm']);
                self.x(format!("qw {q} {base} {m}"));
                self.val += self.c.used;
            }
        }
    }
    fn often(&mut self) -> usize {
        if self.cfg.churn > 1000 && self.rng.chance(40) { self.cfg.churn } else { 256 + self.rng.below(50) }
    }
    fn script(&mut self) {
        let class = *self.rng.pick(&['*', '*', 'G', 'S', 'W', 'T', 'H']);
        let Some(q) = self.pick_query(class) else { return };
        let w = self.rng.chance(15);
        let mut s = vec![];
        let n = 3 + self.rng.below(14);
        let style = self.rng.below(3);
        for _ in 0..n {
            let r = self.rng.below(10);
            s.push(match (style, r) {
                (0, 0..=5) => "n".to_string(),
                (0, 6) | (1, 0..=4) => "i".to_string(),
                (2, 0..=2) => "n".to_string(),
                (2, 3..=5) => "i".to_string(),
                (2, 6) | (0, 7) => format!("k{}", if self.rng.chance(5) { 1000 } else { self.rng.below(4) }),
                (_, 8..=9) if !w => {
                    let id = if self.rng.chance(75) && !self.seen.is_empty() { *self.rng.pick(&self.seen) } else { self.any_id() };
                    format!("f{id}")
                }
                _ => "h".to_string(),
            });
        }
        // (what skipping has passed over is not known when all the rest is taken)
        let skips = s.iter().any(|x| x.starts_with('k')) || self.alive.len() > 300 && self.rng.chance(85);
        if self.rng.chance(25) { s.push(["c", "l", "z"][self.rng.below(if skips { 2 } else { 3 })].to_string()); }
        self.x(format!("it {q} {} {}", if w { 'w' } else { '-' }, s.join(" ")));
    }

    fn main(&mut self) {
        // setting the scene
        let all: Vec<char> = self.cfg.types.chars().collect();
        let mut ts = all.clone();
        for i in (1..ts.len()).rev() { let j = self.rng.below(i + 1); ts.swap(i, j); }
        let keep = if self.rng.chance(50) { ts.len() } else { 1 + self.rng.below(ts.len()) }.max(2.min(ts.len()));
        // in some histories there are many more types and groups
        let many = self.cfg.many > 0 && self.rng.chance(self.cfg.many);
        let (first, grouped) = (self.rng.chance(50), self.rng.below(3));
        if many && first { self.x("reg X".into()); if grouped == 0 { self.x("fg".into()); } }
        for t in ts.iter().take(keep) { self.do_reg(*t); }
        if many && !first { self.x("reg X".into()); if grouped == 0 { self.x("fg".into()); } }
        if self.rng.chance(30) && self.cfg.batch > 0 {
            // spread the ids
            let n = 1 + self.rng.below(70);
            self.x(format!("bo {n}"));
            let e = self.x("bc".into());
            let r = if e.v.len() == 2 { (e.v[0], e.v[1]) } else { (0, 0) };
            for id in r.0..r.1.min(r.0 + 100) {
                self.max = self.max.max(id);
                if self.rng.chance(8) || id == r.1 - 1 { self.born(id); }
            }
        }
        let early = self.rng.chance(self.cfg.groups);
        if early { for _ in 0..1 + self.rng.below(3) { self.random_group(); } }
        let late = self.rng.chance(self.cfg.groups);
        if many && grouped == 1 { self.x("fg".into()); }
        let total: usize = self.cfg.w.values().sum();
        let keys: Vec<(String, usize)> = self.cfg.w.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let len = self.cfg.len / 2 + self.rng.below(self.cfg.len);
        if self.cfg.start > 0 { self.populate(); self.observe(); }
        let mut done = 0;
        let flip = len / 3 + self.rng.below(len / 3 + 1);
        while done < len {
            done += 1;
            if late && done == flip { for _ in 0..1 + self.rng.below(3) { self.random_group(); self.observe(); } }
            if many && self.open_b.is_none() && self.rng.chance(10) && !self.alive.is_empty() {
                let id = self.live();
                let k = self.rng.below(4);
                self.x(match k { 0 | 1 => format!("att {id} X 0 w"), 2 => format!("det {id} X w"), _ => format!("cr {id} X") });
                let near: Vec<i64> = self.recent.clone();
                for id in near { self.x(format!("cr {id} X")); }
            }
            let mut r = self.rng.below(total);
            let mut k = "new";
            for (n, w) in &keys { if r < *w { k = n; break; } r -= w; }
            let k = k.to_string();
            if !self.step(&k) { continue; }
            if done % self.cfg.every == 0 { self.observe(); }
        }
        self.observe();
        if self.cfg.full > 0 && !self.alive.is_empty() { self.at_length(); }
        if self.w("rr") > 0 { for t in ['A', 'P', 'R', 'C', 'U', 'Q'] { self.x(format!("rg {t}")); } }
        self.x("lk".into());
        self.x("dw".into());
    }

    // Many entities before anything else.
    fn populate(&mut self) {
        let mut left = self.cfg.start;
        while left > 0 {
            let n = if left < 20 { left } else { (left / 3 + self.rng.below(left * 2 / 3)).max(1) };
            left -= n;
            if self.x(format!("bo {n}")).k != "ok" { return; }
            let lo = self.max + 1;
            for t in self.reg.clone() {
                if self.rng.below(100) >= self.cfg.fat { continue; }
                for _ in 0..if self.rng.chance(15) { 2 } else { 1 } {
                    let vs: Vec<String> = (0..n).map(|_| self.v(t).to_string()).collect();
                    self.x(format!("ba {t} {}", vs.join(",")));
                }
                for id in lo..lo + n as i64 { if self.seen.len() < 40 || id % 97 == 0 || id == lo + n as i64 - 1 { self.touch(id); } }
            }
            let e = self.x("bc".into());
            if e.v.len() == 2 {
                let (a, b) = (e.v[0], e.v[1]);
                if a > self.max { self.alive.extend(a..b); self.max = self.max.max(b - 1); } else { for id in a..b { self.born(id); } }
            }
        }
    }

    // One operation (or scenario); false when it does not apply now.
    fn step(&mut self, k: &str) -> bool {
        match k {
            "new" => {
                if self.alive.len() >= self.cfg.cap { return false; }
                self.do_new();
            }
            "att" => {
                if self.alive.is_empty() { return false; }
                let (id, t) = (self.live(), self.ty());
                self.do_att(id, t);
            }
            "fill" => {
                // several components on one entity, as a builder would
                if self.alive.len() >= self.cfg.cap { return false; }
                let e = self.x("ho 0".into());
                let _ = e;
                for t in self.reg.clone() {
                    if self.rng.chance(60) { let v = self.v(t); self.x(format!("ha {t} {v}")); }
                }
                let e = self.x("hc".into());
                if let Some(&id) = e.v.first() { self.born(id); self.touch(id); }
            }
            "det" => {
                if self.alive.is_empty() { return false; }
                let id = if !self.seen.is_empty() && self.rng.chance(80) { *self.rng.pick(&self.seen.clone()) } else { self.live() };
                if !self.alive.contains(&id) { return false; }
                let (t, via) = (self.ty(), self.via());
                self.x(format!("det {id} {t} {via}"));
            }
            "rem" => {
                if self.alive.is_empty() { return false; }
                let id = self.live();
                let via = if self.rng.chance(30) { 'm' } else { 'w' };
                if self.x(format!("rem {id} {via}")).k == "ok" { self.died(id); }
            }
            "ent" => {
                // a held entity handle with work through it and around it
                if self.alive.is_empty() { return false; }
                let id = self.live();
                if self.x(format!("ho {id}")).k != "ok" { return false; }
                for _ in 0..1 + self.rng.below(4) {
                    let t = self.ty();
                    let v = self.v(t);
                    match self.rng.below(5) {
                        0 | 1 => { self.x(format!("ha {t} {v}")); self.touch(id); }
                        2 => { self.x(format!("hd {t}")); }
                        3 => { self.x(format!("hw {t} {v}")); }
                        _ => { let o = self.live(); self.do_att(o, t); }
                    }
                    if self.c.ent.is_none() { self.x("hx".into()); return true; }
                    if self.rng.chance(50) { self.observe(); }
                }
                self.x("hc".into());
            }
            "bat" => {
                if self.cfg.batch == 0 { return false; }
                let n = if self.rng.chance(10) { 0 } else { 1 + self.rng.below(self.cfg.batch) };
                if self.alive.len() + n > self.cfg.cap + self.cfg.batch { return false; }
                if self.x(format!("bo {n}")).k != "ok" { return false; }
                self.open_b = Some(n);
                for _ in 0..self.rng.below(5) {
                    let t = self.ty();
                    if self.rng.chance(25) && !self.alive.is_empty() {
                        // other work while the batch is open, perhaps on its entities
                        let id = if self.rng.chance(60) && n > 0 { self.max + 1 + self.rng.below(n) as i64 } else { self.live() };
                        if self.rng.chance(75) { self.do_att(id, t); } else { let via = self.via(); self.x(format!("det {id} {t} {via}")); }
                        self.touch(id);
                    } else {
                        let vs: Vec<String> = (0..n).map(|_| self.v(t).to_string()).collect();
                        let l = if n == 0 { "-".to_string() } else { vs.join(",") };
                        self.x(format!("ba {t} {l}"));
                        if self.c.bat.is_none() { break; }
                        let m = self.max;
                        for i in 0..n { self.touch(m + 1 + i as i64); }
                    }
                    if self.rng.chance(50) { self.observe(); }
                }
                if self.c.bat.is_some() {
                    let e = self.x("bc".into());
                    let r = if e.v.len() == 2 { (e.v[0], e.v[1]) } else { (0, 0) };
                    for id in r.0..r.1 { self.born(id); }
                }
                self.open_b = None;
            }
            "wr" => {
                if self.alive.is_empty() { return false; }
                let id = if self.seen.is_empty() { self.live() } else { *self.rng.pick(&self.seen.clone()) };
                let t = self.ty();
                let v = self.v(t);
                let via = *self.rng.pick(&["ec", "ha", "sg", "su", "da"]);
                self.x(format!("wr {id} {t} {v} {via}"));
            }
            "wa" => {
                let t = self.ty();
                let via = *self.rng.pick(&["ec", "sg", "sg", "su", "da"]);
                let base = self.val + 1;
                self.x(format!("wa {t} {base} {via} {}", self.max + 1));
                self.val += self.c.used + 1;
            }
            "qw" => {
                let qs: Vec<usize> = (0..META.len()).filter(|&i| META[i].muts > 0 && self.legal(i)).collect();
                if qs.is_empty() { return false; }
                let with: Vec<usize> = qs.iter().copied().filter(|&i| !META[i].groups.is_empty()).collect();
                let q = if !with.is_empty() && self.rng.chance(50) { *self.rng.pick(&with) } else { *self.rng.pick(&qs) } + 1;
                let base = self.val + 1;
                if self.rng.chance(30) && !self.seen.is_empty() {
                    let id = *self.rng.pick(&self.seen);
                    self.x(format!("qf {q} {id} {base}"));
                } else {
                    let m = *self.rng.pick(&['i', 'n', 'm']);
                    self.x(format!("qw {q} {base} {m}"));
                }
                self.val += self.c.used + 1;
            }
            "mg" => self.random_group(),
            "wipe" => {
                // a good part of the entities, or of one type's components, goes
                if self.alive.len() < 50 { return false; }
                let n = self.alive.len() / 8 + self.rng.below(self.alive.len() / 4);
                let n = n.min(800);
                if self.rng.chance(50) {
                    for _ in 0..n {
                        let id = self.live();
                        if self.x(format!("rem {id} w")).k == "ok" { self.died(id); }
                    }
                } else {
                    let t = self.ty();
                    for _ in 0..n { let id = self.live(); self.x(format!("det {id} {t} w")); }
                }
            }
            "refill" => {
                // many entities, or components of one type, one by one
                let n = (self.alive.len() / 8 + self.rng.below(self.alive.len() / 4 + 1)).min(600);
                let t = self.ty();
                let kind = self.rng.below(3);
                for _ in 0..n {
                    match kind {
                        0 => self.do_new(),
                        1 => {
                            let e = self.x("new".into());
                            if let Some(&id) = e.v.first() { self.born(id); let v = self.v(t); self.x(format!("att {id} {t} {v} w")); }
                        }
                        _ => { let (id, v) = (self.live(), self.v(t)); self.x(format!("att {id} {t} {v} w")); }
                    }
                }
            }
            "cyn" => {
                let k = self.often();
                let ts: String = self.reg.clone().into_iter().filter(|_| self.rng.chance(50)).collect();
                let e = self.x(format!("cyn {k} {}", if ts.is_empty() { "-" } else { &ts }));
                if let Some(&id) = e.v.first() { if !self.alive.contains(&id) { self.max = self.max.max(id); self.died(id); } }
            }
            "cyd" => {
                if self.alive.len() >= self.cfg.cap { return false; }
                self.do_new();
                let (id, t, k) = (*self.recent.last().unwrap_or(&1), self.ty(), self.often());
                let others: Vec<char> = self.reg.iter().copied().filter(|x| *x != t).collect();
                for u in others { if self.rng.chance(60) { self.do_att(id, u); } }
                self.x(format!("cyd {k} {id} {t}"));
            }
            "cyb" => {
                let top = if self.rng.chance(30) { 300 } else { 60 };
                let (k, b) = (2 + self.rng.below(6), 1 + self.rng.below(top));
                let e = self.x(format!("cyb {k} {b}"));
                if let (3, Some(&lo), Some(&hi)) = (e.v.len(), e.v.first(), e.v.get(1)) {
                    for id in lo..hi.min(lo + 5000) { if !self.alive.contains(&id) { self.max = self.max.max(id); self.gone.push(id); } }
                }
            }
            "cyq" => {
                if self.alive.len() > 60 { return false; }
                let Some(q) = self.pick_query('*') else { return false };
                let k = self.often();
                self.x(format!("cyq {k} {q}"));
            }
            "o2" => self.elsewhere(),
            "reg" => {
                let types: Vec<char> = self.cfg.types.chars().filter(|t| !self.reg.contains(t)).collect();
                if types.is_empty() { return false; }
                let t = *self.rng.pick(&types);
                self.do_reg(t);
            }
            "rr" => {
                let t = *self.rng.pick(&['A', 'P', 'R', 'C', 'U', 'Q']);
                let v = self.v(t);
                self.x(format!("rr {t} {v}"));
            }
            "rw" => {
                let t = *self.rng.pick(&['A', 'P', 'R', 'C', 'U', 'Q']);
                let v = self.v(t);
                self.x(format!("rw {t} {v}"));
            }
            "mis" => return self.misuse(),
            x => panic!("no step {x}"),
        }
        true
    }

    // Work in another world of the same process.
    fn elsewhere(&mut self) {
        for _ in 0..1 + self.rng.below(5) {
            let t = *self.rng.pick(&['A', 'B', 'C', 'D', 'E']);
            let id = 1 + self.rng.below(6) as i64;
            let v = 900_000 + self.rng.below(90_000) as i64;
            let l = match self.rng.below(24) {
                0..=3 => format!("reg {t}"),
                4..=6 => "new".into(),
                7..=11 => format!("att {id} {t} {} w", if t == 'C' { 0 } else { v }),
                12 | 13 => format!("det {id} {t} w"),
                14 | 15 => format!("rem {id} w"),
                16 | 17 => {
                    let known: Vec<(char, char, char)> = META.iter().filter(|m| m.class == 'G').map(|m| m.groups[0]).collect();
                    let g = *self.rng.pick(&known);
                    format!("mg {} {} {}", g.0, g.1, g.2)
                }
                18 => format!("rr P {v}"),
                19 => "bo 3".into(),
                20 => "bc".into(),
                21 => format!("q {} i", 1 + self.rng.below(META.len())),
                22 => format!("ho {id}"),
                _ => if self.rng.chance(50) { "dw".into() } else { "hc".into() },
            };
            self.x(format!("o2 {l}"));
        }
    }

    fn misuse(&mut self) -> bool {
        match self.rng.below(12) {
            0 => { let t = self.ty(); self.do_reg(t); }
            1 | 2 => { let (id, t) = (self.dead_id(), self.ty()); if !self.alive.contains(&id) { self.do_att(id, t); } }
            3 => { let (id, t, via) = (self.dead_id(), self.ty(), self.via()); if !self.alive.contains(&id) { self.x(format!("det {id} {t} {via}")); } }
            4 => {
                let id = self.dead_id();
                if self.alive.contains(&id) { return false; }
                let via = if self.rng.chance(30) { 'm' } else { 'w' };
                self.x(format!("rem {id} {via}"));
            }
            5 => {
                let Some(t) = self.unreg() else { return false };
                if self.alive.is_empty() { return false; }
                let id = self.live();
                if self.rng.chance(50) { let v = self.v(t); let via = self.via(); self.x(format!("att {id} {t} {v} {via}")); }
                else { let via = self.via(); self.x(format!("det {id} {t} {via}")); }
            }
            6 => {
                // a query that must be refused
                let qs: Vec<usize> = (0..META.len()).filter(|&i| !self.legal(i)).collect();
                if qs.is_empty() { return false; }
                let near: Vec<usize> = qs.iter().copied().filter(|&i| META[i].types.chars().all(|t| self.reg.contains(&t))).collect();
                let q = if !near.is_empty() && self.rng.chance(60) { *self.rng.pick(&near) } else { *self.rng.pick(&qs) } + 1;
                self.x(format!("q {q} i"));
            }
            7 | 8 => {
                // groups that must be refused (or, now and then, are fine)
                let (k, a, b) = match self.rng.below(4) {
                    0 if !self.groups.is_empty() => *self.rng.pick(&self.groups.clone()),
                    1 if !self.groups.is_empty() => {
                        let g = *self.rng.pick(&self.groups.clone());
                        let k = *self.rng.pick(&['F', 'P', 'N']);
                        if self.rng.chance(50) { (k, g.2, g.1) } else { (k, g.1, *self.rng.pick(&['A', 'B', 'C', 'D', 'E'])) }
                    }
                    2 => { let a = self.ty(); (*self.rng.pick(&['F', 'P', 'N']), a, a) }
                    _ => (*self.rng.pick(&['F', 'P', 'N']), *self.rng.pick(&['A', 'B', 'C', 'D', 'E']), *self.rng.pick(&['A', 'B', 'C', 'D', 'E'])),
                };
                self.do_mg(k, a, b);
            }
            9 | 10 => {
                // batches of the wrong length or type
                let n = self.rng.below(4);
                if self.x(format!("bo {n}")).k != "ok" { return false; }
                let start = self.max + 1;
                let t = if self.rng.chance(40) { self.unreg().unwrap_or('A') } else { self.ty() };
                let m = if self.reg.contains(&t) { loop { let m = self.rng.below(5); if m != n { break m; } } } else { n };
                let vs: Vec<String> = (0..m).map(|_| self.v(t).to_string()).collect();
                self.x(format!("ba {t} {}", if m == 0 { "-".to_string() } else { vs.join(",") }));
                if self.c.bat.is_some() { self.x("bc".into()); }
                for id in start..start + n as i64 { self.born(id); }
            }
            _ => {
                let Some(t) = self.unreg() else { return false };
                if self.alive.is_empty() { return false; }
                let id = self.live();
                if self.x(format!("ho {id}")).k != "ok" { return false; }
                if self.rng.chance(50) { let v = self.v(t); self.x(format!("ha {t} {v}")); } else { self.x(format!("hd {t}")); }
                if self.c.ent.is_some() { self.x("hc".into()); } else { self.x("hx".into()); }
            }
        }
        true
    }
}
