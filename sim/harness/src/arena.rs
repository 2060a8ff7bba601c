//! Where simulated objects live. Code under test may order objects by address (comparing two locked fields does), so the
//! order of addresses must come from the seed and not from the heap. So must the decision whether a new object takes the
//! place of one that is gone (anything that remembers addresses may mistake one for the other).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

const SIZE: usize = 64 << 20;

struct A;
#[global_allocator]
static GLOBAL: A = A;

static BASE: AtomicUsize = AtomicUsize::new(0);
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static BITS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.with(|x| x.get()) {
            let b = BITS.fetch_add(0, SeqCst);
            BITS.store(b.rotate_right(1), SeqCst);
            let n = (l.size() + 63) & !63;
            if b & 6 != 0 {
                if let Some(p) = freed(|v| v.iter().rposition(|x| x.1 == n && x.0 % l.align() == 0).map(|i| v[i].take())) {
                    return p as *mut u8;
                }
            }
            if b & 1 == 0 {
                let p = HI.fetch_add(n, SeqCst);
                return p as *mut u8;
            }
            return (LO.fetch_sub(n, SeqCst) - n) as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let base = BASE.load(SeqCst);
        if base != 0 && (p as usize) >= base && (p as usize) < base + SIZE {
            let n = (l.size() + 63) & !63;
            freed(|v| v.iter_mut().find(|x| x.0 == 0).map(|x| {
                *x = (p as usize, n);
                0
            }));
            return;
        }
        System.dealloc(p, l)
    }
}

type Block = (usize, usize);
trait Take {
    fn take(&mut self) -> usize;
}
impl Take for Block {
    fn take(&mut self) -> usize {
        std::mem::replace(self, (0, 0)).0
    }
}
static BUSY: AtomicBool = AtomicBool::new(false);
static mut FREED: [Block; 32] = [(0, 0); 32];
/// Blocks given back in this run.
fn freed<R>(f: impl FnOnce(&mut [Block; 32]) -> R) -> R {
    while BUSY.swap(true, SeqCst) {
        std::hint::spin_loop()
    }
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(FREED) });
    BUSY.store(false, SeqCst);
    r
}

/// Start of a run: where the first objects go, and on which side of each other, follows from the seed.
pub fn start(seed: u64) {
    let mut base = BASE.load(SeqCst);
    if base == 0 {
        base = unsafe { System.alloc(Layout::from_size_align_unchecked(SIZE, 4096)) } as usize;
        BASE.store(base, SeqCst);
        LO.store(base + SIZE / 2, SeqCst);
        HI.store(base + SIZE / 2, SeqCst);
    }
    // objects of earlier runs are gone; those of a run that never finished are long forgotten when we come round again
    if LO.load(SeqCst) < base + SIZE / 8 || HI.load(SeqCst) > base + SIZE / 8 * 7 {
        LO.store(base + SIZE / 2, SeqCst);
        HI.store(base + SIZE / 2, SeqCst);
    }
    freed(|v| *v = [(0, 0); 32]);
    BITS.store(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (seed << 7), SeqCst);
}

pub fn arc<T>(v: T) -> Arc<T> {
    ON.with(|x| x.set(true));
    let a = Arc::new(v);
    ON.with(|x| x.set(false));
    a
}

pub fn boxed<T>(v: T) -> Box<T> {
    ON.with(|x| x.set(true));
    let a = Box::new(v);
    ON.with(|x| x.set(false));
    a
}
