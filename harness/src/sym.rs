//! Symbol types handed to the code under test. All of them count the operations the code
//! performs on them, so runaway computations end in a (deterministic) panic instead of a hang.

use std::cell::Cell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const BUDGET_MSG: &str = "symbol-operation budget exceeded";

#[inline]
fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("{}", BUDGET_MSG);
        }
    });
}

/// Charge work of the harness itself (copies it makes on behalf of a run) to the budget.
pub fn charge(n: u64) {
    TICKS.with(|t| t.set(t.get() + n));
    tick();
}

pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}

/// Run `f` with a fresh operation counter and the given budget.
pub fn with_budget<T>(limit: u64, f: impl FnOnce() -> T) -> T {
    TICKS.with(|t| t.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = f();
    LIMIT.with(|l| l.set(u64::MAX));
    r
}

pub fn clear_budget() {
    LIMIT.with(|l| l.set(u64::MAX));
}

pub trait Rep: Copy + Clone + Debug + Eq + Hash + 'static {
    const NAME: &'static str;
    fn of(id: u16) -> Self;
    fn id(&self) -> u16;
}

macro_rules! cloned {
    ($t:ty) => {
        impl Copy for $t {}
        impl Clone for $t {
            #[allow(clippy::non_canonical_clone_impl)]
            fn clone(&self) -> Self {
                tick();
                *self
            }
        }
        impl Eq for $t {}
    };
}

/// Plain numeric symbol.
#[derive(Debug)]
pub struct Num(u16);
cloned!(Num);
impl PartialEq for Num {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Hash for Num {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        self.0.hash(h)
    }
}
impl Rep for Num {
    const NAME: &'static str = "num";
    fn of(id: u16) -> Self {
        Num(id)
    }
    fn id(&self) -> u16 {
        self.0
    }
}

/// Every symbol has the same hash.
#[derive(Debug)]
pub struct Collide(u64);
cloned!(Collide);
impl PartialEq for Collide {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Hash for Collide {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        7u8.hash(h)
    }
}
impl Rep for Collide {
    const NAME: &'static str = "colliding-hash";
    fn of(id: u16) -> Self {
        Collide(u64::MAX - id as u64)
    }
    fn id(&self) -> u16 {
        (u64::MAX - self.0) as u16
    }
}

/// Text symbol.
#[derive(Debug)]
pub struct Text(&'static str);
cloned!(Text);
impl PartialEq for Text {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Hash for Text {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        self.0.hash(h)
    }
}
fn names() -> &'static Vec<&'static str> {
    static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| {
        (0..8192)
            .map(|i| -> &'static str { Box::leak(format!("sym{}", i).into_boxed_str()) })
            .collect()
    })
}
impl Rep for Text {
    const NAME: &'static str = "text";
    fn of(id: u16) -> Self {
        Text(names()[id as usize])
    }
    fn id(&self) -> u16 {
        self.0[3..].parse().unwrap()
    }
}

/// Lawful equality coarser than structural equality: `tag` differs between occurrences.
#[derive(Debug)]
pub struct Tagged {
    #[allow(dead_code)]
    tag: u32,
    id: u16,
}
cloned!(Tagged);
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.id == o.id
    }
}
impl Hash for Tagged {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        self.id.hash(h)
    }
}
thread_local!(static TAG: Cell<u32> = const { Cell::new(0) });
impl Rep for Tagged {
    const NAME: &'static str = "coarse-eq";
    fn of(id: u16) -> Self {
        let tag = TAG.with(|t| {
            let v = t.get().wrapping_mul(1664525).wrapping_add(1013904223);
            t.set(v);
            v
        });
        Tagged { tag, id }
    }
    fn id(&self) -> u16 {
        self.id
    }
}

/// Enum shaped like the symbol enums users write.
#[derive(Debug)]
pub enum Shape {
    Epsilon,
    Rule(u8),
    Lexical { kind: u16 },
}
cloned!(Shape);
impl PartialEq for Shape {
    fn eq(&self, o: &Self) -> bool {
        tick();
        match (self, o) {
            (Shape::Epsilon, Shape::Epsilon) => true,
            (Shape::Rule(a), Shape::Rule(b)) => a == b,
            (Shape::Lexical { kind: a }, Shape::Lexical { kind: b }) => a == b,
            _ => false,
        }
    }
}
impl Hash for Shape {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        match self {
            Shape::Epsilon => 0u8.hash(h),
            Shape::Rule(a) => (1u8, a).hash(h),
            Shape::Lexical { kind } => (2u8, kind).hash(h),
        }
    }
}
impl Rep for Shape {
    const NAME: &'static str = "enum";
    fn of(id: u16) -> Self {
        match id {
            0 => Shape::Epsilon,
            1..=200 => Shape::Rule(id as u8),
            _ => Shape::Lexical { kind: id },
        }
    }
    fn id(&self) -> u16 {
        match self {
            Shape::Epsilon => 0,
            Shape::Rule(a) => *a as u16,
            Shape::Lexical { kind } => *kind,
        }
    }
}
