//! Item types stored in the maps under test, and the ledger that watches them.
//!
//! Every item has a value (what Eq and Hash see) and an instance number (what tells two equal
//! items apart). The thread-local ledger knows which instances are alive; drops, uses after drop
//! and double drops are recorded, and user code called by the maps can be made to panic.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Call {
    Hash = 0,
    Eq = 1,
    Clone = 2,
    Drop = 3,
    Pred = 4,
    Next = 5,
    Fmt = 6,
}
pub const CALLS: [Call; 7] = [
    Call::Hash,
    Call::Eq,
    Call::Clone,
    Call::Drop,
    Call::Pred,
    Call::Next,
    Call::Fmt,
];

pub struct Ledger {
    /// 1 = alive, 2 = dropped; index is the instance
    state: RefCell<Vec<u8>>,
    alive: Cell<i64>,
    fault: RefCell<Option<String>>,
    counts: [Cell<u64>; 7],
    /// Number of calls of the armed kind until a panic is injected
    armed: Cell<Option<(Call, u64)>>,
    fired: Cell<bool>,
    /// Instances the last Hash or Eq was about
    about: Cell<(u32, u32)>,
}

thread_local! {
    pub static LEDGER: Ledger = Ledger {
        state: RefCell::new(Vec::new()),
        alive: Cell::new(0),
        fault: RefCell::new(None),
        counts: Default::default(),
        armed: Cell::new(None),
        fired: Cell::new(false),
        about: Cell::new((0, 0)),
    };
}

pub const INJECTED: &str = "injected panic";

pub fn reset() {
    LEDGER.with(|l| {
        l.state.borrow_mut().clear();
        l.alive.set(0);
        *l.fault.borrow_mut() = None;
        l.armed.set(None);
        l.fired.set(false);
        for c in &l.counts {
            c.set(0)
        }
    })
}
pub fn alive() -> i64 {
    LEDGER.with(|l| l.alive.get())
}
pub fn is_alive(inst: u32) -> bool {
    LEDGER.with(|l| l.state.borrow().get(inst as usize) == Some(&1))
}
pub fn fault() -> Option<String> {
    LEDGER.with(|l| l.fault.borrow().clone())
}
pub fn count(c: Call) -> u64 {
    LEDGER.with(|l| l.counts[c as usize].get())
}
/// Arms a panic at the `nth` (0-based) call of kind `c` from now on
pub fn arm(c: Call, nth: u64) {
    LEDGER.with(|l| {
        l.armed.set(Some((c, nth)));
        l.fired.set(false);
    })
}
/// Disarms and tells whether the panic was thrown
pub fn disarm() -> bool {
    LEDGER.with(|l| {
        l.armed.set(None);
        l.fired.get()
    })
}
/// Whether the last Hash or Eq (the one that panicked) was about this instance
pub fn about(inst: u32) -> bool {
    let a = LEDGER.with(|l| l.about.get());
    a.0 == inst || a.1 == inst
}
pub fn set_fault(f: impl FnOnce() -> String) {
    LEDGER.with(|l| {
        let mut g = l.fault.borrow_mut();
        if g.is_none() {
            *g = Some(f());
        }
    })
}

#[inline]
pub fn call(c: Call) {
    LEDGER.with(|l| {
        let n = &l.counts[c as usize];
        n.set(n.get() + 1);
        if let Some((k, left)) = l.armed.get() {
            if k == c {
                if left == 0 {
                    l.armed.set(None);
                    l.fired.set(true);
                    std::panic::panic_any(INJECTED);
                }
                l.armed.set(Some((k, left - 1)));
            }
        }
    })
}

fn born() -> u32 {
    LEDGER.with(|l| {
        let mut s = l.state.borrow_mut();
        s.push(1);
        l.alive.set(l.alive.get() + 1);
        (s.len() - 1) as u32
    })
}

fn use_check(what: &str, side: u8, v: u32, inst: u32) {
    if !is_alive(inst) {
        set_fault(|| format!("{what} of dropped item side {side} value {v} instance {inst}"));
    }
}

/// An item of side `S` (0 left, 1 right)
pub struct Key<const S: u8> {
    pub v: u32,
    pub inst: u32,
    // Heap memory lets AddressSanitizer and Miri see uses after free
    heap: Box<u32>,
}
pub type L = Key<0>;
pub type R = Key<1>;

impl<const S: u8> Key<S> {
    pub fn new(v: u32) -> Self {
        Key {
            v,
            inst: born(),
            heap: Box::new(v),
        }
    }
    pub fn value(&self) -> u32 {
        *self.heap
    }
    pub fn id(&self) -> (u32, u32) {
        use_check("reading", S, self.v, self.inst);
        (*self.heap, self.inst)
    }
}
impl<const S: u8> PartialEq for Key<S> {
    fn eq(&self, o: &Self) -> bool {
        LEDGER.with(|l| l.about.set((self.inst, o.inst)));
        call(Call::Eq);
        use_check("Eq", S, self.v, self.inst);
        use_check("Eq", S, o.v, o.inst);
        *self.heap == *o.heap
    }
}
impl<const S: u8> Eq for Key<S> {}
impl<const S: u8> Hash for Key<S> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        LEDGER.with(|l| l.about.set((self.inst, u32::MAX)));
        call(Call::Hash);
        use_check("Hash", S, self.v, self.inst);
        h.write_u64(((S as u64) << 32) | *self.heap as u64)
    }
}
impl<const S: u8> Clone for Key<S> {
    fn clone(&self) -> Self {
        call(Call::Clone);
        use_check("Clone", S, self.v, self.inst);
        Key::new(*self.heap)
    }
}
impl<const S: u8> fmt::Debug for Key<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        call(Call::Fmt);
        use_check("Debug", S, self.v, self.inst);
        write!(f, "{}{}#{};", ['L', 'R'][S as usize], *self.heap, self.inst)
    }
}
impl<const S: u8> Drop for Key<S> {
    fn drop(&mut self) {
        LEDGER.with(|l| {
            let mut s = l.state.borrow_mut();
            match s.get_mut(self.inst as usize) {
                Some(x) if *x == 1 => {
                    *x = 2;
                    l.alive.set(l.alive.get() - 1);
                }
                _ => {
                    drop(s);
                    set_fault(|| {
                        format!("double drop of side {S} value {} instance {}", self.v, self.inst)
                    });
                }
            }
        });
        call(Call::Drop);
    }
}

/// Borrowed form of a key: hashes and compares like it
#[repr(transparent)]
pub struct Form<const S: u8>(pub u32);
impl<const S: u8> Borrow<Form<S>> for Key<S> {
    fn borrow(&self) -> &Form<S> {
        // Safety: Form is a transparent u32 and lives as long as the key
        unsafe { &*(&*self.heap as *const u32 as *const Form<S>) }
    }
}
impl<const S: u8> PartialEq for Form<S> {
    fn eq(&self, o: &Self) -> bool {
        call(Call::Eq);
        self.0 == o.0
    }
}
impl<const S: u8> Eq for Form<S> {}
impl<const S: u8> PartialEq<Key<S>> for Form<S> {
    fn eq(&self, o: &Key<S>) -> bool {
        call(Call::Eq);
        use_check("Eq", S, o.v, o.inst);
        self.0 == *o.heap
    }
}
impl<const S: u8> Hash for Form<S> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        call(Call::Hash);
        h.write_u64(((S as u64) << 32) | self.0 as u64)
    }
}

/// Number of instances made so far
pub fn instances() -> u32 {
    LEDGER.with(|l| l.state.borrow().len() as u32)
}
/// Values from here on can't be deserialized
pub const REFUSED: u32 = 0xffff_fff0;
impl<const S: u8> serde::Serialize for Key<S> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        use_check("Serialize", S, self.v, self.inst);
        z.serialize_u32(*self.heap)
    }
}
impl<'de, const S: u8> serde::Deserialize<'de> for Key<S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = u32::deserialize(d)?;
        if v >= REFUSED {
            return Err(<D::Error as serde::de::Error>::custom(format_args!("refused {v}")));
        }
        Ok(Key::new(v))
    }
}
