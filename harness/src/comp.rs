//! Component types of different shapes, whose values are unique numbers and
//! whose destructors are recorded.

use sparsey::component::ComponentData;
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

static LOG: Mutex<Vec<(u8, i64)>> = Mutex::new(Vec::new());
static BOMB: Mutex<Option<(u8, i64)>> = Mutex::new(None);
static ARMED: AtomicBool = AtomicBool::new(false);

/// Takes the destructor log.
pub fn take_drops() -> Vec<(u8, i64)> {
    std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Makes the next destructor of this value panic.
pub fn arm(bomb: Option<(u8, i64)>) {
    ARMED.store(bomb.is_some(), Ordering::SeqCst);
    *BOMB.lock().unwrap_or_else(|e| e.into_inner()) = bomb;
}

fn log_drop(c: u8, v: i64) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push((c, v));
    if ARMED.load(Ordering::SeqCst) {
        let boom = BOMB.lock().unwrap_or_else(|e| e.into_inner()).take_if(|b| *b == (c, v)).is_some();
        if boom && !std::thread::panicking() {
            panic!("destructor of {c}:{v}");
        }
    }
}

/// The value read through a component that was already dropped or is garbage.
pub const POISON: i64 = 777_777_777;
const LIVE: u32 = 0x5AFE_C0DE;
const DEAD: u32 = 0xDEAD_DEAD;
const STEP: u32 = 100_000;

pub trait Cp: Send + Sync + Sized + 'static {
    const C: u8;
    fn mk(v: u32) -> Self;
    fn val(&self) -> i64;
    fn bump(&mut self);
    /// Consumes a value the world handed back, without recording its drop.
    fn handback(self) -> i64;
}

macro_rules! tracked {
    ($T:ident, $c:literal, $($align:literal)?, $Pay:ty, $mk:expr, $get:expr, $set:expr) => {
        $(#[repr(align($align))])?
        pub struct $T {
            magic: u32,
            pay: ManuallyDrop<$Pay>,
            v: u32,
        }

        impl Cp for $T {
            const C: u8 = $c;

            fn mk(v: u32) -> Self {
                Self { magic: LIVE, pay: ManuallyDrop::new($mk(v)), v }
            }

            fn val(&self) -> i64 {
                if self.magic != LIVE || $get(&self.pay) != self.v {
                    return POISON;
                }
                i64::from(self.v)
            }

            fn bump(&mut self) {
                if self.magic == LIVE {
                    self.v = self.v.wrapping_add(STEP);
                    $set(&mut self.pay, self.v);
                }
            }

            fn handback(mut self) -> i64 {
                let v = self.val();
                if self.magic == LIVE {
                    unsafe { ManuallyDrop::drop(&mut self.pay) };
                }
                std::mem::forget(self);
                v
            }
        }

        impl Drop for $T {
            fn drop(&mut self) {
                if self.magic == LIVE {
                    unsafe {
                        std::ptr::write_volatile(&mut self.magic, DEAD);
                        ManuallyDrop::drop(&mut self.pay);
                    }
                }
                log_drop($c, i64::from(self.v));
            }
        }
    };
}

tracked!(A, 0, , Box<u32>, Box::new, |p: &Box<u32>| **p, |p: &mut Box<u32>, v| **p = v);
tracked!(C, 2, 64, [u8; 5], |v: u32| { let b = v.to_le_bytes(); [b[0], b[1], b[2], b[3], 7] },
    |p: &[u8; 5]| if p[4] == 7 { u32::from_le_bytes([p[0], p[1], p[2], p[3]]) } else { u32::MAX },
    |p: &mut [u8; 5], v: u32| p[..4].copy_from_slice(&v.to_le_bytes()));
tracked!(S, 4, , String, |v: u32| v.to_string(), |p: &String| p.parse::<u32>().unwrap_or(u32::MAX),
    |p: &mut String, v: u32| *p = v.to_string());
tracked!(E, 5, , (u64, [u16; 7]), |v: u32| (u64::from(v) << 20, [v as u16; 7]),
    |p: &(u64, [u16; 7])| { let v = (p.0 >> 20) as u32; if p.1.iter().all(|x| *x == v as u16) { v } else { u32::MAX } },
    |p: &mut (u64, [u16; 7]), v: u32| *p = (u64::from(v) << 20, [v as u16; 7]));

/// Plain data without a destructor.
#[derive(Clone, Copy)]
pub struct B(u32);

impl Cp for B {
    const C: u8 = 1;
    fn mk(v: u32) -> Self {
        Self(v)
    }
    fn val(&self) -> i64 {
        i64::from(self.0)
    }
    fn bump(&mut self) {
        self.0 = self.0.wrapping_add(STEP);
    }
    fn handback(self) -> i64 {
        i64::from(self.0)
    }
}

/// Zero-sized, with a destructor.  All values are the number 0.
pub struct Z;

impl Cp for Z {
    const C: u8 = 3;
    fn mk(_: u32) -> Self {
        Self
    }
    fn val(&self) -> i64 {
        0
    }
    fn bump(&mut self) {}
    fn handback(self) -> i64 {
        std::mem::forget(self);
        0
    }
}

impl Drop for Z {
    fn drop(&mut self) {
        log_drop(3, 0);
    }
}

/// A family of plain component types, numbered from 10.
#[derive(Clone, Copy)]
pub struct G<const N: usize>(u32);

impl<const N: usize> Cp for G<N> {
    const C: u8 = 10 + N as u8;
    fn mk(v: u32) -> Self {
        Self(v)
    }
    fn val(&self) -> i64 {
        i64::from(self.0)
    }
    fn bump(&mut self) {
        self.0 = self.0.wrapping_add(STEP);
    }
    fn handback(self) -> i64 {
        i64::from(self.0)
    }
}

/// Types that are registered and never used, so that there are many types.
struct Pad<const N: usize>;

macro_rules! pads {
    ($($a:literal)*) => { [$(pads!(@ $a 0 1 2 3 4 5 6 7 8 9)),*] };
    (@ $a:literal $($b:literal)*) => { [$(ComponentData::new::<Pad<{ $a * 10 + $b }>>()),*] };
}

static PADS: [[ComponentData; 10]; 30] =
    pads!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29);

pub fn pads(n: usize) -> impl Iterator<Item = ComponentData> {
    PADS.iter().flatten().copied().take(n)
}
