//! Component and resource types whose every instance is accounted for.
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

pub const DOUBLE_DROP: i64 = -999; // dropped although already dropped
pub const CHANGED: i64 = -998; // dropped holding bytes that were never written
pub const FOREIGN: i64 = -996; // dropped or read in another world than it was given to
pub const DEAD_READ: i64 = -997; // read although dropped, or holding bytes that were never written

static NEXT: AtomicU64 = AtomicU64::new(1);
#[derive(Default)]
struct Reg {
    live: HashMap<u64, (char, i64, i64)>,
    zst: HashMap<i64, i64>, // living instances of the zero-sized type
}
// Where values come from and go to: the number of the world that operations are made on.
static WORLD: AtomicI64 = AtomicI64::new(1);
pub fn in_world(n: i64) {
    WORLD.store(n, SeqCst);
}
fn here() -> i64 {
    WORLD.load(SeqCst)
}
thread_local! {
    // drops made by this thread since it last asked
    static DROPS: RefCell<Vec<(char, i64)>> = const { RefCell::new(vec![]) };
}
fn dropped(t: char, v: i64) {
    DROPS.with(|d| d.borrow_mut().push((t, v)));
}
static REG: Mutex<Option<Reg>> = Mutex::new(None);
fn reg() -> MutexGuard<'static, Option<Reg>> {
    let mut g = REG.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Reg::default());
    }
    g
}
/// Forget all instances and drops seen so far.
pub fn reset() {
    *reg() = None;
    in_world(1);
    DROPS.with(|d| d.borrow_mut().clear());
}
/// This thread's drops since the last call.
pub fn take_drops() -> Vec<(char, i64)> {
    let mut d = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    d.sort();
    d
}
/// This world's instances created and not yet dropped.
pub fn living() -> i64 {
    let g = reg();
    let r = g.as_ref().unwrap();
    r.live.values().filter(|x| x.2 == here()).count() as i64 + r.zst.get(&here()).unwrap_or(&0)
}

#[derive(Debug)]
pub struct Tok {
    serial: u64,
    ty: char,
    val: i64,
}
impl Tok {
    fn new(ty: char, val: i64) -> Tok {
        let serial = NEXT.fetch_add(1, SeqCst);
        reg().as_mut().unwrap().live.insert(serial, (ty, val, here()));
        Tok { serial, ty, val }
    }
    fn get(&self) -> i64 {
        match reg().as_ref().unwrap().live.get(&self.serial) {
            Some(&(t, v, w)) if t == self.ty && v == self.val => if w == here() { self.val } else { FOREIGN },
            _ => DEAD_READ,
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let mut g = reg();
        let r = g.as_mut().unwrap();
        let ev = match r.live.remove(&self.serial) {
            Some((t, v, w)) if t == self.ty && v == self.val => (t, if w == here() { v } else { FOREIGN }),
            Some((t, ..)) => (t, CHANGED),
            None => ('?', DOUBLE_DROP),
        };
        dropped(ev.0, ev.1);
    }
}

pub trait Comp: Send + Sync + Sized + 'static {
    const T: char;
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
}

#[derive(Debug)]
pub struct A(Tok);
impl Comp for A {
    const T: char = 'A';
    fn mk(v: i64) -> Self {
        A(Tok::new('A', v))
    }
    fn val(&self) -> i64 {
        self.0.get()
    }
}
/// On the heap.
#[derive(Debug)]
pub struct B(Box<Tok>);
impl Comp for B {
    const T: char = 'B';
    fn mk(v: i64) -> Self {
        B(Box::new(Tok::new('B', v)))
    }
    fn val(&self) -> i64 {
        self.0.get()
    }
}
/// Zero-sized: every value is 0.
#[derive(Debug)]
pub struct C;
impl Comp for C {
    const T: char = 'C';
    fn mk(_: i64) -> Self {
        *reg().as_mut().unwrap().zst.entry(here()).or_insert(0) += 1;
        C
    }
    fn val(&self) -> i64 {
        0
    }
}
impl Drop for C {
    fn drop(&mut self) {
        let mut g = reg();
        let r = g.as_mut().unwrap();
        *r.zst.entry(here()).or_insert(0) -= 1;
        dropped('C', 0);
    }
}
/// Over-aligned.
#[repr(align(64))]
#[derive(Debug)]
pub struct D(Tok);
impl Comp for D {
    const T: char = 'D';
    fn mk(v: i64) -> Self {
        D(Tok::new('D', v))
    }
    fn val(&self) -> i64 {
        if self as *const _ as usize % 64 != 0 {
            return DEAD_READ;
        }
        self.0.get()
    }
}
/// Large, with a string.
#[derive(Debug)]
pub struct E {
    s: String,
    _pad: [u64; 9],
    t: Tok,
}
impl Comp for E {
    const T: char = 'E';
    fn mk(v: i64) -> Self {
        E { s: format!("value {v}"), _pad: [v as u64; 9], t: Tok::new('E', v) }
    }
    fn val(&self) -> i64 {
        let v = self.t.get();
        if self.s == format!("value {v}") && self._pad == [v as u64; 9] {
            v
        } else {
            DEAD_READ
        }
    }
}
/// Used only as a resource.
#[derive(Debug)]
pub struct P(Tok);
impl Comp for P {
    const T: char = 'P';
    fn mk(v: i64) -> Self {
        P(Tok::new('P', v))
    }
    fn val(&self) -> i64 {
        self.0.get()
    }
}
#[derive(Debug)]
pub struct R(Box<Tok>, u8);
impl Comp for R {
    const T: char = 'R';
    fn mk(v: i64) -> Self {
        R(Box::new(Tok::new('R', v)), 1)
    }
    fn val(&self) -> i64 {
        self.0.get()
    }
}
/// Over-aligned and large.
#[repr(align(128))]
#[derive(Debug)]
pub struct U([u8; 300], Tok, String);
impl Comp for U {
    const T: char = 'U';
    fn mk(v: i64) -> Self {
        U([v as u8; 300], Tok::new('U', v), format!("{v}"))
    }
    fn val(&self) -> i64 {
        let v = self.1.get();
        if self as *const _ as usize % 128 == 0 && self.0 == [v as u8; 300] && self.2 == format!("{v}") { v } else { DEAD_READ }
    }
}
/// Used only as a resource.
#[derive(Debug)]
pub struct Q(u8, Tok);
impl Comp for Q {
    const T: char = 'Q';
    fn mk(v: i64) -> Self {
        Q(7, Tok::new('Q', v))
    }
    fn val(&self) -> i64 {
        if self.0 == 7 { self.1.get() } else { DEAD_READ }
    }
}
macro_rules! show {
    ($($T:ty)*) => { $(impl std::fmt::Display for $T {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.val())
        }
    })* };
}
show!(A C P R U Q);

#[macro_export]
macro_rules! with_ty {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            'A' => { type $T = $crate::comps::A; $e }
            'B' => { type $T = $crate::comps::B; $e }
            'C' => { type $T = $crate::comps::C; $e }
            'D' => { type $T = $crate::comps::D; $e }
            'E' => { type $T = $crate::comps::E; $e }
            x => panic!("no component type {x}"),
        }
    };
}
#[macro_export]
macro_rules! with_res {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            'A' => { type $T = $crate::comps::A; $e }
            'C' => { type $T = $crate::comps::C; $e }
            'P' => { type $T = $crate::comps::P; $e }
            'R' => { type $T = $crate::comps::R; $e }
            'U' => { type $T = $crate::comps::U; $e }
            'Q' => { type $T = $crate::comps::Q; $e }
            x => panic!("no resource type {x}"),
        }
    };
}

/// Types that are there only so that there are many.
#[derive(Debug)]
pub struct Filler<const N: usize>(usize);
impl<const N: usize> Drop for Filler<N> {
    fn drop(&mut self) {
        // one stands for all
        if N == 0 {
            dropped('X', 0);
        }
    }
}
pub const FILLERS: usize = 72;
#[macro_export]
macro_rules! fillers {
    ($m:ident) => { $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35
                        36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71) };
}
pub fn register_fillers(w: &mut xecs::World) {
    macro_rules! go { ($($n:literal)*) => { $( w.register::<Filler<$n>>(); )* } }
    fillers!(go);
}
/// Each type in an owning group with its neighbour, and in a non-owning one with itself's next but one: 36 + 72 groups.
pub fn group_fillers(w: &mut xecs::World) {
    use xecs::group::{full_owning, non_owning, partial_owning};
    macro_rules! go { ($($n:literal)*) => { $(
        const _: () = assert!($n < FILLERS);
        if $n % 4 == 0 { w.make_group(full_owning::<Filler<$n>, Filler<{ ($n + 1) % FILLERS }>>()); }
        if $n % 4 == 2 { w.make_group(partial_owning::<Filler<$n>, Filler<{ ($n + 1) % FILLERS }>>()); }
        w.make_group(non_owning::<Filler<$n>, Filler<{ ($n + 2) % FILLERS }>>());
    )* } }
    fillers!(go);
}
/// Gives an entity all of them.
pub fn attach_fillers(w: &xecs::World, e: xecs::EntityId) {
    macro_rules! go { ($($n:literal)*) => { $( w.attach_component(e, Filler::<$n>(e.get())); )* } }
    fillers!(go);
}
/// Whether the entity has its own ones of them.
pub fn read_fillers(w: &xecs::World, e: xecs::EntityId) -> Option<i64> {
    let mut k = 0;
    macro_rules! go { ($($n:literal)*) => { $( if let Some(f) = w.entity_component_read::<Filler<$n>>(e) { k += if f.0 == e.get() { 1 } else { 1000 }; } )* } }
    fillers!(go);
    match k { 0 => None, 72 => Some(0), k => Some(-k) }
}
pub fn detach_fillers(w: &xecs::World, e: xecs::EntityId) -> Option<i64> {
    let mut k = 0;
    macro_rules! go { ($($n:literal)*) => { $( if let Some(f) = w.detach_component::<Filler<$n>>(e) { k += if f.0 == e.get() { 1 } else { 1000 }; std::mem::forget(f); } )* } }
    fillers!(go);
    match k { 0 => None, 72 => Some(0), k => Some(-k) }
}
