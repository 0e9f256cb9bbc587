//! The seam between the library and element code. Every comparison, clone,
//! step, hash, (de)serialisation and formatting of an element made by the
//! library passes through `hit`, where the simulator counts it against the
//! operation's budget, unwinds, re-enters the library, or switches clients.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

pub const CMP: u16 = 1;
pub const EQ: u16 = 2;
pub const CLONE: u16 = 4;
pub const PRED: u16 = 8;
pub const SUCC: u16 = 16;
pub const HASH: u16 = 32;
pub const SER: u16 = 64;
pub const DE: u16 = 128;
pub const FMT: u16 = 256;
pub const PARSE: u16 = 512;
pub const STREAM: u16 = 1024;
pub const ELEMENT: u16 = CMP | EQ | CLONE | PRED | SUCC | HASH;


/// Payload of an injected unwinding.
pub struct Injected;
/// Payload raised when an operation exceeds its budget of element operations.
pub struct Budget;
/// Payload raised in parked threads to end a simulation.
pub struct Abort;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode { None, Panic, Nest, Error }

pub type Switch = fn(u16);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static MASK: Cell<u16> = const { Cell::new(0) };
    static MASKED: Cell<u64> = const { Cell::new(0) };
    static TRIP: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<Mode> = const { Cell::new(Mode::None) };
    static FIRED: Cell<u16> = const { Cell::new(0) };
    static SWITCH: Cell<Option<Switch>> = const { Cell::new(None) };
    static NEST: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<Injected>() || p.is::<Budget>() || p.is::<Abort>() { return; }
        let msg = if let Some(s) = p.downcast_ref::<&str>() { (*s).to_string() }
            else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST.try_with(|l| *l.borrow_mut() = format!("{msg}{loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

pub fn set_switch(s: Option<Switch>) {
    SWITCH.with(|c| c.set(s));
}

/// Called by element code. Returns true if the element operation must report
/// an error of its own (formatting, serialisation, parsing).
#[inline]
pub fn hit(kind: u16) -> bool {
    if !ON.with(Cell::get) { return false; }
    hit_on(kind)
}

#[inline(never)]
fn hit_on(kind: u16) -> bool {
    let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
    if n > BUDGET.with(Cell::get) {
        ON.with(|c| c.set(false));
        panic_any(Budget);
    }
    if kind & MASK.with(Cell::get) != 0 {
        let m = MASKED.with(|c| { c.set(c.get() + 1); c.get() });
        if m == TRIP.with(Cell::get) {
            TRIP.with(|c| c.set(0));
            FIRED.with(|c| c.set(kind));
            match MODE.with(Cell::get) {
                Mode::Panic => {
                    ON.with(|c| c.set(false));
                    panic_any(Injected);
                }
                Mode::Error => return true,
                Mode::Nest => {
                    ON.with(|c| c.set(false));
                    let f = NEST.with(|n| n.borrow_mut().take());
                    if let Some(mut f) = f { f(); }
                    ON.with(|c| c.set(true));
                }
                Mode::None => {}
            }
        }
    }
    if let Some(s) = SWITCH.with(Cell::get) { s(kind); }
    false
}

pub enum Out<R> {
    Ok(R),
    Injected,
    Budget,
    Panic(String),
}

impl<R> Out<R> {
    pub fn code(&self) -> u64 {
        match self { Out::Ok(_) => 1, Out::Injected => 2, Out::Budget => 3, Out::Panic(_) => 4 }
    }
}

#[derive(Clone, Copy)]
pub struct Arm { pub mode: Mode, pub mask: u16, pub trip: u64 }
pub const NO_ARM: Arm = Arm { mode: Mode::None, mask: 0, trip: 0 };

pub struct Report { pub count: u64, pub masked: u64, pub fired: u16 }

pub fn set_nest(f: Option<Box<dyn FnMut()>>) {
    NEST.with(|n| *n.borrow_mut() = f);
}

/// Runs library code with the seam switched on.
pub fn call<R>(budget: u64, arm: Arm, f: impl FnOnce() -> R) -> (Out<R>, Report) {
    let saved = (
        ON.with(Cell::get), COUNT.with(Cell::get), BUDGET.with(Cell::get), MASK.with(Cell::get),
        MASKED.with(Cell::get), TRIP.with(Cell::get), MODE.with(Cell::get), FIRED.with(Cell::get),
    );
    COUNT.with(|c| c.set(0));
    BUDGET.with(|c| c.set(budget));
    MASK.with(|c| c.set(arm.mask));
    MASKED.with(|c| c.set(0));
    TRIP.with(|c| c.set(arm.trip));
    MODE.with(|c| c.set(arm.mode));
    FIRED.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    ON.with(|c| c.set(false));
    let rep = Report {
        count: COUNT.with(Cell::get), masked: MASKED.with(Cell::get), fired: FIRED.with(Cell::get),
    };
    COUNT.with(|c| c.set(saved.1));
    BUDGET.with(|c| c.set(saved.2));
    MASK.with(|c| c.set(saved.3));
    MASKED.with(|c| c.set(saved.4));
    TRIP.with(|c| c.set(saved.5));
    MODE.with(|c| c.set(saved.6));
    FIRED.with(|c| c.set(saved.7));
    ON.with(|c| c.set(saved.0));
    (classify(r), rep)
}

fn classify<R>(r: Result<R, Box<dyn Any + Send>>) -> Out<R> {
    match r {
        Ok(x) => Out::Ok(x),
        Err(p) => {
            if p.is::<Injected>() { Out::Injected }
            else if p.is::<Budget>() { Out::Budget }
            else if p.is::<Abort>() { resume_unwind(p) }
            else { Out::Panic(last_panic()) }
        }
    }
}

/// Panics inside harness-owned callbacks (a dying stream).
pub fn die() -> ! {
    FIRED.with(|c| c.set(STREAM));
    ON.with(|c| c.set(false));
    panic_any(Injected)
}
