//! Executes one operation line against the real crate and describes what happened as one JSON event.
use crate::catalog;
use crate::comps::*;
use crate::{with_res, with_ty};
use parking_lot::vsched::{yield_now, Deadlock, WouldBlock};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::group::{full_owning, non_owning, partial_owning, Group};
use std::collections::BTreeMap;
use xecs::{ComponentRead, ComponentWrite, StorageRead, StorageWrite};
use xecs::{ResourceRead, ResourceWrite};
use xecs::{Entities, Entity, EntityId, World};

/// Stands for usize::MAX in traces (TLC's integers have 32 bits).
pub const HUGE: i64 = 2_000_000_000;
pub fn eid(i: i64) -> EntityId {
    EntityId::new(if i == HUGE { usize::MAX } else { i as usize }).unwrap()
}
pub fn num(i: EntityId) -> i64 {
    if i.get() == usize::MAX { HUGE } else { i.get() as i64 }
}

/// More rows than any query can have: an iterator that does not end. (Every row has a component.)
fn most_rows() -> usize {
    crate::comps::living().max(0) as usize + 40
}

/// A group argument, whether or not the crate's own one is Copy for these types.
struct Mk<G: 'static>(fn() -> G);
impl<G> Clone for Mk<G> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<G> Copy for Mk<G> {}
#[allow(clippy::from_over_into)]
impl<G: Into<Group>> Into<Group> for Mk<G> {
    fn into(self) -> Group {
        (self.0)().into()
    }
}

/// Something held in a slot while other operations go on.
pub trait Guard {
    fn look(&mut self) -> Vec<i64>;
    fn put(&mut self, _x: i64) {}
}
struct Sr<T: Comp>(StorageRead<'static, T>);
impl<T: Comp> Guard for Sr<T> {
    fn look(&mut self) -> Vec<i64> {
        self.0.data().iter().map(|x| x.val()).collect()
    }
}
struct Sw<T: Comp>(StorageWrite<'static, T>);
impl<T: Comp> Guard for Sw<T> {
    fn look(&mut self) -> Vec<i64> {
        self.0.data_mut().iter().map(|x| x.val()).collect()
    }
}
// The handle a component guard came from, if any, is given back after it.
struct Cr<T: Comp>(Option<ComponentRead<'static, T>>, *mut Entity<'static>);
impl<T: Comp> Guard for Cr<T> {
    fn look(&mut self) -> Vec<i64> {
        vec![self.0.as_ref().unwrap().val()]
    }
}
struct Cw<T: Comp>(Option<ComponentWrite<'static, T>>, *mut Entity<'static>);
impl<T: Comp> Guard for Cw<T> {
    fn look(&mut self) -> Vec<i64> {
        vec![self.0.as_ref().unwrap().val()]
    }
    fn put(&mut self, x: i64) {
        **self.0.as_mut().unwrap() = T::mk(x);
    }
}
fn free(p: *mut Entity<'static>) {
    if !p.is_null() {
        drop(unsafe { Box::from_raw(p) });
    }
}
impl<T: Comp> Drop for Cr<T> {
    fn drop(&mut self) {
        self.0 = None;
        free(self.1);
    }
}
impl<T: Comp> Drop for Cw<T> {
    fn drop(&mut self) {
        self.0 = None;
        free(self.1);
    }
}
struct Rr<T: Comp>(ResourceRead<'static, T>);
impl<T: Comp> Guard for Rr<T> {
    fn look(&mut self) -> Vec<i64> {
        vec![self.0.val()]
    }
}
struct Rw<T: Comp>(ResourceWrite<'static, T>);
impl<T: Comp> Guard for Rw<T> {
    fn look(&mut self) -> Vec<i64> {
        vec![self.0.val()]
    }
    fn put(&mut self, x: i64) {
        *self.0 = T::mk(x);
    }
}
pub enum Held {
    Guard(Box<dyn Guard>),
    Iter(Box<dyn crate::rows::DynIter<'static> + 'static>),
    Ent(Entity<'static>),
    Bat(Entities<'static>),
}

pub struct Ctx {
    w: *mut World,
    slots: BTreeMap<i64, Held>,
    taint: bool, // an operation that changes the world was cut short; nothing runs after that
    shared: bool, // another context owns the world
    other: Option<Box<Ctx>>, // a second world in the same process, which nothing here may depend on
    pub ent: Option<Entity<'static>>,
    pub bat: Option<Entities<'static>>,
    pub used: i64, // values consumed by the last operation
}
unsafe impl Send for Ctx {}

#[derive(Default)]
pub struct Ev {
    pub line: String,
    pub k: &'static str, // ok, none, panic, block
    pub v: Vec<i64>,
    pub d: Vec<(char, i64)>,
    pub extra: String, // further JSON fields
    pub msg: String,
}

fn ints(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, x);
    }
    s.push(']');
    s
}
impl Ev {
    pub fn json(&self) -> String {
        let mut p = self.line.split(' ');
        let o = p.next().unwrap_or("");
        let d: Vec<String> = self.d.iter().map(|(t, v)| format!("[\"{t}\",{v}]")).collect();
        format!(
            "{{\"o\":\"{o}\",{}\"k\":\"{}\",\"v\":{},\"d\":[{}]{}}}",
            args_json(o, &p.collect::<Vec<_>>()),
            self.k,
            ints(&self.v),
            d.join(","),
            self.extra
        )
    }
}
fn types(s: &str) -> impl Iterator<Item = char> + '_ {
    s.chars().filter(|t| *t != '-')
}
// The arguments of an operation, by name.
fn args_json(o: &str, a: &[&str]) -> String {
    let g = |i: usize| a.get(i).copied().unwrap_or("0");
    match o {
        "reg" | "hr" => format!("\"t\":\"{}\",", g(0)),
        "att" | "wr" => format!("\"e\":{},\"t\":\"{}\",\"x\":{},", g(0), g(1), g(2)),
        "det" => format!("\"e\":{},\"t\":\"{}\",", g(0), g(1)),
        "wa" => format!("\"t\":\"{}\",", g(0)),
        "cr" => format!("\"e\":{},\"t\":\"{}\",", g(0), g(1)),
        "sl" => format!("\"t\":\"{}\",", g(0)),
        "rem" | "ho" => format!("\"e\":{},", g(0)),
        "bo" | "sw" => format!("\"n\":{},", g(0)),
        "ba" => format!("\"t\":\"{}\",\"xs\":[{}],", g(0), if g(1) == "-" { "" } else { g(1) }),
        "ha" => format!("\"t\":\"{}\",\"x\":{},", g(0), g(1)),
        "hd" => format!("\"t\":\"{}\",", g(0)),
        "hw" => format!("\"t\":\"{}\",\"x\":{},", g(0), g(1)),
        "mg" => format!("\"g\":[\"{}\",\"{}\",\"{}\"],", g(0), g(1), g(2)),
        "lay" => format!("\"g\":[\"{}\",\"{}\",\"{}\"],", g(0), g(1), g(2)),
        "gh" => format!("\"s\":{},\"g\":\"{}\",\"t\":\"{}\",\"a\":{},", g(0), g(1), g(2), g(3)),
        "gu" => format!("\"s\":{},\"x\":{},", g(0), g(1)),
        "gr" => format!("\"s\":{},", g(0)),
        "rr" | "rw" => format!("\"t\":\"{}\",\"x\":{},", g(0), g(1)),
        "rg" => format!("\"t\":\"{}\",", g(0)),
        "ex" | "xe" => format!("\"ids\":[{}],", g(0)),
        "rd" => format!("\"t\":\"{}\",\"ids\":[{}],", g(0), g(1)),
        "q" => format!("\"q\":{},\"m\":\"{}\",", g(0), g(1)),
        "qw" => format!("\"q\":{},\"x\":{},\"m\":\"{}\",", g(0), g(1), g(2)),
        "qf" => format!("\"q\":{},\"e\":{},\"x\":{},", g(0), g(1), g(2)),
        "it" => format!("\"q\":{},\"m\":\"{}\",", g(0), g(1)),
        "cyn" => format!("\"n\":{},\"ts\":[{}],", g(0), types(g(1)).map(|t| format!("\"{t}\"")).collect::<Vec<_>>().join(",")),
        "cyd" => format!("\"n\":{},\"e\":{},\"t\":\"{}\",", g(0), g(1), g(2)),
        "cyb" => format!("\"n\":{},\"b\":{},", g(0), g(1)),
        "cyq" => format!("\"n\":{},\"q\":{},", g(0), g(1)),
        _ => String::new(),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { w: Box::into_raw(Box::new(World::new())), slots: BTreeMap::new(), taint: false, shared: false, other: None, ent: None, bat: None, used: 0 }
    }
    /// Another caller of the same world.
    pub fn share(&self) -> Ctx {
        Ctx { w: self.w, slots: BTreeMap::new(), taint: false, shared: true, other: None, ent: None, bat: None, used: 0 }
    }
    /// Give the world up without dropping it.
    pub fn abandon(mut self) {
        self.shared = true;
    }
    pub fn world(&self) -> &'static World {
        assert!(!self.w.is_null());
        unsafe { &*self.w }
    }
    fn world_mut(&mut self) -> &mut World {
        assert!(self.ent.is_none() && self.bat.is_none() && self.slots.is_empty(), "harness: handle open");
        unsafe { &mut *self.w }
    }
    pub fn alive(&self) -> bool {
        !self.w.is_null()
    }

    pub fn exec(&mut self, line: &str) -> Ev {
        if let Some(l) = line.strip_prefix('!') {
            // the process died in this operation in an earlier run
            let extra = fallback_extra(l.split(' ').next().unwrap());
            return Ev { line: l.to_string(), k: "crash", extra, ..Default::default() };
        }
        if let Some(l) = line.strip_prefix('@') {
            // the same call from another thread
            struct Lend(*mut Ctx);
            unsafe impl Send for Lend {}
            let me = Lend(self);
            return std::thread::scope(|s| {
                s.spawn(move || {
                    let me = me;
                    unsafe { &mut *me.0 }.exec(l)
                }).join().unwrap()
            });
        }
        let mut ev = Ev { line: line.to_string(), k: "ok", ..Default::default() };
        if let Some(l) = line.strip_prefix("o2 ") {
            if l == "dw" {
                self.drop_other();
            } else {
                let _ = self.other.get_or_insert_with(|| Box::new(Ctx::new())).exec(l);
            }
            return ev;
        }
        if line == "dw" {
            self.drop_other();
        }
        self.used = 0;
        let a: Vec<&str> = line.split(' ').collect();
        let r = catch_unwind(AssertUnwindSafe(|| self.run(&a, &mut ev)));
        if let Err(p) = r {
            if p.is::<Deadlock>() {
                std::panic::resume_unwind(p);
            }
            ev.v.clear();
            ev.extra = fallback_extra(a[0]);
            ev.k = if p.is::<WouldBlock>() { "block" } else { "panic" };
            if ev.k == "block" && matches!(a[0], "new" | "att" | "det" | "rem" | "gh") && (a[0] != "gh" || matches!(a[2], "ne" | "ba")) {
                self.taint = true;
            }
            ev.msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
        }
        ev.d = take_drops();
        ev
    }

    fn drop_other(&mut self) {
        let o = self.other.take();
        let _ = catch_unwind(AssertUnwindSafe(|| drop(o)));
        take_drops();
    }

    fn run(&mut self, a: &[&str], ev: &mut Ev) {
        let n = |i: usize| a[i].parse::<i64>().unwrap();
        let ch = |i: usize| a[i].chars().next().unwrap();
        let list = |i: usize| -> Vec<i64> {
            if a[i] == "-" || a[i].is_empty() { vec![] } else { a[i].split(',').map(|x| x.parse().unwrap()).collect() }
        };
        if self.taint {
            ev.k = "skip";
            ev.extra = fallback_extra(a[0]);
            return;
        }
        let missing = match a[0] {
            "gu" | "gr" => !self.slots.contains_key(&n(1)),
            "ha" | "hd" | "hw" | "hc" => self.ent.is_none(),
            "ba" | "bc" => self.bat.is_none(),
            _ => false,
        };
        if missing {
            // the call that should have given the handle did not
            ev.k = "nohandle";
            ev.extra = fallback_extra(a[0]);
            return;
        }
        match a[0] {
            // X: as many types as there is no room for elsewhere, all or none
            "reg" if ch(1) == 'X' => register_fillers(self.world_mut()),
            "fg" => group_fillers(self.world_mut()),
            "att" if ch(2) == 'X' => attach_fillers(self.world(), eid(n(1))),
            "det" | "cr" if ch(2) == 'X' => {
                let r = if a[0] == "det" { detach_fillers(self.world(), eid(n(1))) } else { read_fillers(self.world(), eid(n(1))) };
                match r {
                    Some(v) => ev.v.push(v),
                    None => ev.k = "none",
                }
            }
            "reg" => with_ty!(ch(1), T => { self.world_mut().register::<T>(); }),
            "hr" => with_ty!(ch(1), T => ev.v.push(self.world().has_registered::<T>() as i64)),
            "new" => {
                let e = self.world().create_entity();
                ev.v.push(num(e.into_id()));
            }
            "att" => with_ty!(ch(2), T => {
                let x = T::mk(n(3));
                if a[4] == "h" {
                    let h = self.world().entity(eid(n(1))).expect("no entity");
                    h.attach(x);
                } else {
                    self.world().attach_component(eid(n(1)), x);
                }
            }),
            "det" => with_ty!(ch(2), T => {
                let r: Option<T> = if a[3] == "h" {
                    let h = self.world().entity(eid(n(1))).expect("no entity");
                    h.detach::<T>()
                } else {
                    self.world().detach_component::<T>(eid(n(1)))
                };
                let early = take_drops();
                match r {
                    Some(x) => {
                        ev.v.push(x.val());
                        hand_over(x, ev);
                    }
                    None => ev.k = "none",
                }
                if !early.is_empty() {
                    // something was dropped by detach itself
                    ev.v.push(early[0].1);
                }
            }),
            "rem" => {
                if a[2] == "m" {
                    let h = self.world().entity(eid(n(1))).expect("no entity");
                    h.manaully_drop();
                } else {
                    self.world().remove_entity(eid(n(1)));
                }
            }
            // the same many times over
            "cyn" => {
                let (mut least, mut most, mut drops) = (i64::MAX, 0, 0);
                for i in 0..n(1) {
                    let id = num(self.world().create_entity().into_id());
                    (least, most) = (least.min(id), most.max(id));
                    for t in types(a[2]) {
                        with_ty!(t, T => self.world().attach_component(eid(id), T::mk(if t == 'C' { 0 } else { i })));
                    }
                    if !take_drops().is_empty() { drops -= 1 << 20; }
                    self.world().remove_entity(eid(id));
                    drops += take_drops().iter().filter(|d| types(a[2]).any(|t| **d == (t, if t == 'C' { 0 } else { i }))).count() as i64;
                    yield_now();
                }
                ev.v.extend([least, most, drops]);
            }
            "cyd" => with_ty!(ch(3), T => {
                let mut right = 0;
                for i in 0..n(1) {
                    let x = if ch(3) == 'C' { 0 } else { i };
                    self.world().attach_component(eid(n(2)), T::mk(x));
                    let r = self.world().detach_component::<T>(eid(n(2)));
                    right += (take_drops().is_empty() && r.as_ref().map(|r| r.val()) == Some(x)) as i64;
                    drop(r);
                    take_drops();
                    yield_now();
                }
                ev.v.push(right);
            }),
            "cyb" => {
                let (mut first, mut last, mut count) = (0, 0, 0);
                for i in 0..n(1) {
                    let r = self.world().create_entities(n(2) as usize).into_ids();
                    let (lo, hi) = (num(r.start), num(r.end));
                    if i == 0 { first = lo; }
                    last = hi;
                    for id in lo..hi.min(lo + 10 * n(2)) {
                        count += 1;
                        self.world().remove_entity(eid(id));
                    }
                    yield_now();
                }
                ev.v.extend([first, last, count]);
            }
            "cyq" => {
                let (mut least, mut most) = (i64::MAX, 0);
                for _ in 0..n(1) {
                    let mut it = catalog::open(self.world(), n(2) as usize);
                    let mut k = 0;
                    while k < most_rows() as i64 && it.next().is_some() { k += 1; }
                    (least, most) = (least.min(k), most.max(k));
                    yield_now();
                }
                ev.v.extend([least, most]);
            }
            // handles
            "bo" => {
                assert!(self.bat.is_none());
                let b = self.world().create_entities(n(1) as usize);
                self.bat = Some(b);
            }
            "ba" => with_ty!(ch(1), T => {
                let xs: Vec<T> = list(2).into_iter().map(T::mk).collect();
                let b = self.bat.take().unwrap();
                self.bat = Some(b.attach::<T, Vec<T>>(xs));
            }),
            "bc" => {
                let r = self.bat.take().unwrap().into_ids();
                ev.v.extend([num(r.start), num(r.end)]);
            }
            "ho" => {
                assert!(self.ent.is_none());
                if n(1) == 0 {
                    self.ent = Some(self.world().create_entity());
                } else {
                    self.ent = self.world().entity(eid(n(1)));
                    if self.ent.is_none() {
                        ev.k = "none";
                    }
                }
            }
            "ha" => with_ty!(ch(1), T => {
                let x = T::mk(n(2));
                let h = self.ent.take().unwrap();
                self.ent = Some(h.attach(x));
            }),
            "hd" => with_ty!(ch(1), T => {
                let h = self.ent.take().unwrap();
                let r = h.detach::<T>();
                let early = take_drops();
                match r {
                    Some(x) => { ev.v.push(x.val()); hand_over(x, ev); }
                    None => ev.k = "none",
                }
                if !early.is_empty() { ev.v.push(early[0].1); }
                self.ent = Some(h);
            }),
            "hw" => with_ty!(ch(1), T => {
                let h = self.ent.take().unwrap();
                match h.component_write::<T>() {
                    Some(mut g) => { ev.v.push(g.val()); *g = T::mk(n(2)); }
                    None => ev.k = "none",
                }
                self.ent = Some(h);
            }),
            "hx" => self.ent = None,
            "hc" => ev.v.push(num(self.ent.take().unwrap().into_id())),
            // writes
            "wr" => with_ty!(ch(2), T => {
                let id = eid(n(1));
                let w = self.world();
                let x = n(3);
                match a[4] {
                    "ec" => match w.entity_component_write::<T>(id) {
                        Some(mut g) => { ev.v.push(g.val()); yield_now(); *g = T::mk(x); }
                        None => ev.k = "none",
                    },
                    "ha" => match w.entity(id) {
                        Some(h) => match h.component_write::<T>() {
                            Some(mut g) => { ev.v.push(g.val()); *g = T::mk(x); }
                            None => ev.k = "none",
                        },
                        None => ev.k = "none",
                    },
                    _ => match w.components_write::<T>() {
                        Some(mut s) => {
                            if !s.exist(id) {
                                ev.k = "none";
                                if s.get_mut(id).is_some() { ev.k = "ok"; }
                            } else if a[4] == "su" {
                                let r = unsafe { s.get_unchecked_mut(id) };
                                ev.v.push(r.val());
                                *r = T::mk(x);
                            } else if a[4] == "da" {
                                let old = s.get(id).map(|y| y.val()).unwrap_or(DEAD_READ);
                                let at = s.get(id).map(|y| y as *const T).unwrap_or(std::ptr::null());
                                let data = s.data_mut();
                                // the position of this entity's value in the slice
                                let i = data.iter().position(|y| std::ptr::eq(y, at)).unwrap();
                                ev.v.push(old);
                                data[i] = T::mk(x);
                            } else {
                                match s.get_mut(id) {
                                    Some(r) => { ev.v.push(r.val()); *r = T::mk(x); }
                                    None => ev.k = "none",
                                }
                            }
                        }
                        None => ev.k = "none",
                    },
                }
            }),
            // groups
            "mg" => {
                let w = self.world_mut();
                with_ty!(ch(2), X => with_ty!(ch(3), Y => match a[1] {
                    "F" => w.make_group(Mk(full_owning::<X, Y>)),
                    "P" => w.make_group(Mk(partial_owning::<X, Y>)),
                    _ => w.make_group(Mk(non_owning::<X, Y>)),
                }))
            }
            "lay" => {
                let w = self.world();
                let sa: Vec<i64> = with_ty!(ch(2), X => w.components_read::<X>().unwrap().data().iter().map(|x| x.val()).collect());
                let sb: Vec<i64> = with_ty!(ch(3), X => w.components_read::<X>().unwrap().data().iter().map(|x| x.val()).collect());
                ev.extra = format!(",\"sa\":{},\"sb\":{}", ints(&sa), ints(&sb));
            }
            // resources
            "rr" => with_res!(ch(1), T => { let x = T::mk(n(2)); self.world_mut().register_resource(x); }),
            "rg" => with_res!(ch(1), T => match self.world().resource_read::<T>() {
                Some(g) => {
                    ev.v.push(g.val());
                    if !self.shared {
                        // (reading again under a guard may block when another thread waits to write)
                        let again = self.world().resource_read::<T>().map(|g| g.val());
                        if again != Some(g.val()) { ev.v.push(-7); }
                    }
                    yield_now();
                    if ev.v != [g.val()] { ev.v.push(-7); }
                    if !printed(&g, &*g) { ev.v.push(-7); }
                }
                None => ev.k = "none",
            }),
            "rw" => with_res!(ch(1), T => match self.world().resource_write::<T>() {
                Some(mut g) => {
                    ev.v.push(g.val());
                    if !printed(&g, &*g) { ev.v.push(-7); }
                    *g = T::mk(n(2));
                    if g.val() != n(2) && T::T != 'C' { ev.v.push(-7); }
                    if !printed(&g, &*g) { ev.v.push(-7); }
                }
                None => ev.k = "none",
            }),
            // observations
            "ex" => {
                for i in list(1) {
                    let x = self.world().exist(eid(i));
                    let h = self.world().entity(eid(i));
                    let y = h.is_some();
                    let z = h.map_or(true, |h| h.into_id() == eid(i));
                    ev.v.push(if x == y && z { x as i64 } else { -7 });
                }
            }
            "rd" => with_ty!(ch(1), T => self.read_all::<T>(&list(2), ev)),
            // reads through one guard
            "cr" => with_ty!(ch(2), T => match self.world().entity_component_read::<T>(eid(n(1))) {
                Some(g) => {
                    let v = g.val();
                    yield_now();
                    ev.v.push(if g.val() == v { v } else { -7 });
                }
                None => ev.k = "none",
            }),
            "sl" => with_ty!(ch(1), T => match self.world().components_read::<T>() {
                Some(s) => {
                    ev.v.extend(s.data().iter().map(|x| x.val()));
                    yield_now();
                    if s.data().iter().map(|x| x.val()).collect::<Vec<_>>() != ev.v { ev.v.push(-7); }
                }
                None => ev.k = "none",
            }),
            "xe" => ev.v.push(self.world().exist(eid(n(1))) as i64),
            "lk" => {
                let w = self.world();
                for t in "ABCDE".chars() {
                    with_ty!(t, T => { drop(w.components_write::<T>()); })
                }
                for t in "ACPRUQ".chars() {
                    with_res!(t, T => { drop(w.resource_write::<T>()); })
                }
                if self.bat.is_none() && self.ent.is_none() {
                    let r = w.create_entities(0).into_ids();
                    if r.start != r.end { ev.v.push(-7); }
                }
                if format!("{:?}", w).is_empty() { ev.v.push(-7); }
            }
            // things held while other operations go on: gh <slot> <kind> <type> <entity, query or count>
            "gh" => {
                let w = self.world();
                let h = match a[2] {
                    "sr" => with_ty!(ch(3), T => w.components_read::<T>().map(|g| Held::Guard(Box::new(Sr(g))))),
                    "sw" => with_ty!(ch(3), T => w.components_write::<T>().map(|g| Held::Guard(Box::new(Sw(g))))),
                    "cr" => with_ty!(ch(3), T => w.entity_component_read::<T>(eid(n(4))).map(|g| Held::Guard(Box::new(Cr(Some(g), std::ptr::null_mut()))))),
                    "cw" => with_ty!(ch(3), T => w.entity_component_write::<T>(eid(n(4))).map(|g| Held::Guard(Box::new(Cw(Some(g), std::ptr::null_mut()))))),
                    "hr" | "hw" => w.entity(eid(n(4))).and_then(|e| {
                        struct Own(*mut Entity<'static>);
                        impl Drop for Own { fn drop(&mut self) { free(self.0); } }
                        let mut own = Own(Box::into_raw(Box::new(e)));
                        let e: &'static Entity<'static> = unsafe { &*own.0 };
                        let mut done = |p: &mut Own| std::mem::replace(&mut p.0, std::ptr::null_mut());
                        with_ty!(ch(3), T => if a[2] == "hr" {
                            e.component_read::<T>().map(|g| Held::Guard(Box::new(Cr(Some(g), done(&mut own)))))
                        } else {
                            e.component_write::<T>().map(|g| Held::Guard(Box::new(Cw(Some(g), done(&mut own)))))
                        })
                    }),
                    "rr" => with_res!(ch(3), T => w.resource_read::<T>().map(|g| Held::Guard(Box::new(Rr(g))))),
                    "rw" => with_res!(ch(3), T => w.resource_write::<T>().map(|g| Held::Guard(Box::new(Rw(g))))),
                    "q" => Some(Held::Iter(catalog::open(w, n(4) as usize))),
                    "en" => w.entity(eid(n(4))).map(Held::Ent),
                    "ne" => Some(Held::Ent(w.create_entity())),
                    "ba" => Some(Held::Bat(w.create_entities(n(4) as usize))),
                    x => panic!("harness: unknown guard {x}"),
                };
                match h {
                    Some(h) => { self.slots.insert(n(1), h); }
                    None => ev.k = "none",
                }
            }
            "gu" => {
                let mut rows = vec![];
                let most = most_rows();
                match self.slots.get_mut(&n(1)).unwrap() {
                    Held::Guard(g) => {
                        ev.v = g.look();
                        g.put(n(2));
                    }
                    Held::Iter(it) => {
                        while let Some((i, r)) = it.next_with_id() {
                            let mut v = vec![];
                            r.vals(&mut v);
                            rows.push(format!("{{\"e\":{},\"r\":{}}}", num(i), ints(&v)));
                            if rows.len() > most { break; }
                        }
                    }
                    _ => {}
                }
                ev.extra = format!(",\"rows\":[{}]", rows.join(","));
            }
            "gr" => match self.slots.remove(&n(1)).unwrap() {
                Held::Ent(e) => ev.v.push(num(e.into_id())),
                Held::Bat(b) => {
                    let r = b.into_ids();
                    ev.v.extend([num(r.start), num(r.end)]);
                }
                x => drop(x),
            },
            "q" => self.query(n(1) as usize, ch(2), ev),
            "wa" => with_ty!(ch(1), T => self.write_all::<T>(n(2), a[3], n(4), ev)),
            "qw" => self.query_write(n(1) as usize, n(2), ch(3), ev),
            "qf" => {
                let (mut used, base) = (0, n(3));
                let mut it = catalog::open(self.world(), n(1) as usize);
                let mut rows = vec![];
                if let Some(mut r) = it.from_id(eid(n(2))) {
                    rows.push(put_row(n(2), &mut *r, &mut || { used += 1; base + used - 1 }));
                }
                drop(it);
                self.used = used;
                ev.extra = format!(",\"rows\":[{}]", rows.join(","));
            }
            "it" => self.script(n(1) as usize, ch(2), &a[3..], ev),
            // the world moves to another place in memory
            "mv" => {
                assert!(self.ent.is_none() && self.bat.is_none() && self.slots.is_empty(), "harness: handle open");
                let old = self.w;
                self.w = Box::into_raw(Box::new(*unsafe { Box::from_raw(old) }));
            }
            "dw" => {
                self.slots.clear();
                self.ent = None;
                self.bat = None;
                let w = unsafe { Box::from_raw(self.w) };
                self.w = std::ptr::null_mut();
                drop(w);
                ev.v.push(living());
            }
            x => panic!("harness: unknown operation {x}"),
        }
    }

    // Every value of one component type is replaced, in the order of the ids or of the slice.
    fn write_all<T: Comp>(&mut self, base: i64, via: &str, max: i64, ev: &mut Ev) {
        let w = self.world();
        let mut used = 0;
        let mut next = || { used += 1; base + used - 1 };
        let mut rows = vec![];
        match w.components_write::<T>() {
            None => ev.k = "none",
            Some(mut s) if via == "da" => {
                let at: std::collections::HashMap<usize, Vec<i64>> = (1..=max).filter_map(|i| s.get(eid(i)).map(|x| (x as *const T as usize, i)))
                    .fold(Default::default(), |mut m: std::collections::HashMap<usize, Vec<i64>>, (p, i)| { m.entry(p).or_default().push(i); m });
                let mut at = at;
                for mut r in s.data_mut() {
                    let id = at.get_mut(&(r as *const T as usize)).and_then(|v| v.pop()).unwrap_or(0);
                    rows.push(put_row(id, &mut r, &mut next));
                }
            }
            Some(s) if via == "ec" => {
                drop(s);
                for id in 1..=max {
                    if let Some(mut g) = w.entity_component_write::<T>(eid(id)) {
                        rows.push(put_row(id, &mut &mut *g, &mut next));
                    }
                }
            }
            Some(mut s) => {
                for id in 1..=max {
                    if via == "su" {
                        if s.exist(eid(id)) { rows.push(put_row(id, &mut unsafe { s.get_unchecked_mut(eid(id)) }, &mut next)); }
                    } else if let Some(mut r) = s.get_mut(eid(id)) {
                        rows.push(put_row(id, &mut r, &mut next));
                    }
                }
            }
        }
        self.used = used;
        let mut at = vec![];
        for (i, r) in rows.iter().enumerate() {
            let id: usize = r.trim_start_matches("{\"e\":").split(',').next().unwrap().parse().unwrap();
            if id >= 1 << 20 { continue; }
            if at.len() < id { at.resize(id, 0); }
            if id > 0 { at[id - 1] = i as i64 + 1; }
        }
        ev.extra = format!(",\"rows\":[{}],\"at\":{}", rows.join(","), ints(&at));
    }

    // Every way of reading one component type must tell the same.
    fn read_all<T: Comp>(&self, ids: &[i64], ev: &mut Ev) {
        let w = self.world();
        let mut bad = false;
        let mut per: Vec<i64> = vec![];
        let (mut slice, count);
        match w.components_read::<T>() {
            None => {
                ev.k = "none";
                if w.components_write::<T>().is_some() || ids.iter().any(|&i| w.entity_component_read::<T>(eid(i)).is_some()
                    || w.entity_component_write::<T>(eid(i)).is_some()) {
                    ev.k = "ok";
                }
                ev.extra = ",\"s\":[],\"n\":0".into();
                return;
            }
            Some(s) => {
                count = s.count();
                bad |= s.is_empty() != (count == 0) || s.data().len() != count;
                slice = s.data().iter().map(|x| x.val()).collect::<Vec<_>>();
                for &i in ids {
                    let id = eid(i);
                    let v = s.get(id).map(|x| x.val());
                    bad |= s.exist(id) != v.is_some();
                    if v.is_some() && s.exist(id) {
                        bad |= unsafe { s.get_unchecked(id) }.val() != v.unwrap();
                    }
                    per.push(v.unwrap_or(-1));
                }
            }
        }
        for (j, &i) in ids.iter().enumerate() {
            let id = eid(i);
            let here = per[j];
            let ok = w.entity_component_read::<T>(id).map_or(-1, |g| g.val()) == here
                && w.entity_component_write::<T>(id).map_or(-1, |g| g.val()) == here
                && w.entity(id).map_or(true, |h| {
                    h.component_read::<T>().map_or(-1, |g| g.val()) == here
                        && h.component_write::<T>().map_or(-1, |g| g.val()) == here
                });
            if !ok {
                per[j] = -7;
            }
        }
        {
            let mut s = w.components_write::<T>().unwrap();
            bad |= s.count() != count || s.is_empty() != (count == 0) || s.data().len() != count || s.data_mut().len() != count;
            let s2: Vec<i64> = s.data_mut().iter().map(|x| x.val()).collect();
            bad |= s2 != slice || s.data().iter().map(|x| x.val()).collect::<Vec<_>>() != slice;
            for (j, &i) in ids.iter().enumerate() {
                let id = eid(i);
                let v = s.get(id).map_or(-1, |x| x.val());
                if v != per[j] || s.get_mut(id).map_or(-1, |x| x.val()) != v || s.exist(id) != (v != -1) {
                    per[j] = -7;
                } else if v != -1 && unsafe { s.get_unchecked_mut(id) }.val() != v || v != -1 && unsafe { s.get_unchecked(id) }.val() != v {
                    per[j] = -7;
                }
            }
        }
        slice.sort();
        if bad {
            slice.push(-7);
        }
        ev.v = per;
        ev.extra = format!(",\"s\":{},\"n\":{}", ints(&slice), count);
    }

    // Take all rows of a query. Modes: n (next), i (next_with_id), w (with_id adaptor), m (alternating).
    fn query(&self, q: usize, mode: char, ev: &mut Ev) {
        let most = most_rows();
        let mut it = catalog::open(self.world(), q);
        if mode == 'w' {
            it = it.with_id();
        }
        let mut rows = vec![];
        let mut k = 0;
        loop {
            k += 1;
            yield_now();
            let with_id = mode == 'i' || mode == 'w' || (mode == 'm' && k % 2 == 0);
            let r = if with_id { it.next_with_id().map(|(i, r)| (num(i), r)) } else { it.next().map(|r| (0, r)) };
            let Some((i, r)) = r else { break };
            let mut v = vec![];
            r.vals(&mut v);
            rows.push(format!("{{\"e\":{},\"r\":{}}}", i, ints(&v)));
            if rows.len() > most {
                break;
            }
        }
        drop(it);
        ev.extra = format!(",\"rows\":[{}]", rows.join(","));
    }

    // Replace every mutable component a query hands out.
    fn query_write(&mut self, q: usize, base: i64, mode: char, ev: &mut Ev) {
        let mut used = 0;
        let mut rows = vec![];
        let most = most_rows();
        {
            let mut it = catalog::open(self.world(), q);
            let mut k = 0;
            loop {
                k += 1;
                yield_now();
                let with_id = mode == 'i' || (mode == 'm' && k % 2 == 0);
                let r = if with_id { it.next_with_id().map(|(i, r)| (num(i), r)) } else { it.next().map(|r| (0, r)) };
                let Some((i, mut r)) = r else { break };
                rows.push(put_row(i, &mut *r, &mut || {
                    used += 1;
                    base + used - 1
                }));
                if rows.len() > most {
                    break;
                }
            }
        }
        self.used = used;
        ev.extra = format!(",\"rows\":[{}]", rows.join(","));
    }

    // Drive an iterator through a script: n, i, h, f<id>, k<n> (nth), and at the end c (count) or l (last).
    fn script(&self, q: usize, mode: char, steps: &[&str], ev: &mut Ev) {
        let mut it = catalog::open(self.world(), q);
        if mode == 'w' {
            it = it.with_id();
        }
        let mut out = vec![];
        for s in steps {
            let c = s.chars().next().unwrap();
            let arg: i64 = s[1..].parse().unwrap_or(0);
            let (mut p, mut e, mut r, mut lo, mut hi) = (0, 0, vec![], 0i64, -1i64);
            match c {
                'n' => {
                    if let Some(x) = it.next() {
                        p = 1;
                        x.vals(&mut r);
                    }
                }
                'i' => {
                    if let Some((i, x)) = it.next_with_id() {
                        p = 1;
                        e = num(i);
                        x.vals(&mut r);
                    }
                }
                'k' => {
                    if let Some((i, x)) = it.nth(arg as usize) {
                        p = 1;
                        e = i.map_or(0, num);
                        x.vals(&mut r);
                    }
                }
                'c' | 'l' => {
                    let (n, last) = it.rest(c == 'l');
                    lo = n as i64;
                    if let Some((i, x)) = last {
                        p = 1;
                        e = i.map_or(0, num);
                        x.vals(&mut r);
                    }
                    out.push(format!("{{\"c\":\"{c}\",\"a\":{arg},\"p\":{p},\"e\":{e},\"r\":{},\"lo\":{lo},\"hi\":{hi}}}", ints(&r)));
                    ev.extra = format!(",\"s\":[{}]", out.join(","));
                    return;
                }
                // all that is left, at once
                'z' => {
                    let all = it.all(most_rows());
                    let rows: Vec<String> = all.iter().map(|(i, x)| {
                        r.clear();
                        x.vals(&mut r);
                        format!("{{\"e\":{},\"r\":{}}}", i.map_or(0, num), ints(&r))
                    }).collect();
                    out.push(format!("{{\"c\":\"z\",\"a\":0,\"p\":0,\"e\":0,\"r\":[],\"lo\":{},\"hi\":-1}}", all.len()));
                    ev.extra = format!(",\"s\":[{}],\"z\":[{}]", out.join(","), rows.join(","));
                    return;
                }
                'f' => {
                    if let Some(x) = it.from_id(eid(arg)) {
                        p = 1;
                        x.vals(&mut r);
                    }
                }
                _ => {
                    let (l, h) = it.hint();
                    lo = l.min(1_000_000_000) as i64;
                    hi = h.map_or(-1, |h| h.min(1_000_000_000) as i64);
                }
            }
            out.push(format!("{{\"c\":\"{c}\",\"a\":{arg},\"p\":{p},\"e\":{e},\"r\":{},\"lo\":{lo},\"hi\":{hi}}}", ints(&r)));
        }
        drop(it);
        ev.extra = format!(",\"s\":[{}]", out.join(","));
    }
}
impl Drop for Ctx {
    fn drop(&mut self) {
        self.slots.clear();
        self.ent = None;
        self.bat = None;
        if !self.w.is_null() && !self.shared {
            drop(unsafe { Box::from_raw(self.w) });
        }
    }
}

fn put_row(id: i64, r: &mut dyn crate::rows::Row, next: &mut dyn FnMut() -> i64) -> String {
    let (mut old, mut new) = (vec![], vec![]);
    r.vals(&mut old);
    r.put(next);
    r.vals(&mut new);
    format!("{{\"e\":{},\"r\":{},\"w\":{}}}", id, ints(&old), ints(&new))
}

// A detached value belongs to the caller, whose dropping it is not the world's doing.
fn hand_over<T: Comp>(x: T, ev: &mut Ev) {
    let v = x.val();
    drop(x);
    if take_drops() != [(T::T, v)] {
        ev.v.push(-7);
    }
}

// A guard prints as what it guards.
fn printed<G: std::fmt::Debug + std::fmt::Display, T: std::fmt::Debug + std::fmt::Display>(g: &G, x: &T) -> bool {
    format!("{g}") == format!("{x}") && format!("{g:?}").contains(&format!("{x:?}"))
}

// Events keep their shape when the call did not return.
fn fallback_extra(o: &str) -> String {
    match o {
        "rd" => ",\"s\":[],\"n\":0",
        "q" | "qw" | "qf" => ",\"rows\":[]",
        "wa" => ",\"rows\":[],\"at\":[]",
        "it" => ",\"s\":[]",
        "lay" => ",\"sa\":[],\"sb\":[]",
        _ => "",
    }
    .into()
}
