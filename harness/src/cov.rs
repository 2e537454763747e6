//! Coverage feedback.  poreader and `subject` are compiled with calls at every edge and comparison
//! (see bin/rustc-cov); each thread counts its own.  Without that build there is no feedback, and
//! the guided search degrades to blind mutation.

use std::cell::Cell;

/// Values compared are hashed into this many features.
const CMP_BITS: usize = 1 << 20;

struct Map {
    counts: Vec<u16>,
    touched: Vec<u32>,
    cmp: Vec<u64>,
    cmp_touched: Vec<u32>,
    last: u32,
}

thread_local! {
    static MAP: Cell<*mut Map> = const { Cell::new(std::ptr::null_mut()) };
}

static mut GUARDS: u32 = 0;

/// Number of edges that can be counted.
pub fn edges() -> usize {
    unsafe { GUARDS as usize }
}

/// # Safety
/// Called by the runtime with the bounds of a section of guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let n = (stop as usize - start as usize) / 4;
    for i in 0..n {
        GUARDS += 1;
        *start.add(i) = GUARDS;
    }
}

/// # Safety
/// Called from compiled code with a valid guard.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let Ok(m) = MAP.try_with(|m| m.get()) else { return };
    if m.is_null() {
        return;
    }
    let m = &mut *m;
    let i = *g as usize;
    m.last = i as u32;
    let c = m.counts.get_unchecked_mut(i);
    if *c == 0 {
        m.touched.push(i as u32);
    }
    *c = c.saturating_add(1);
}

#[inline]
unsafe fn cmp(a: u64, b: u64, konst: bool) {
    let Ok(m) = MAP.try_with(|m| m.get()) else { return };
    if m.is_null() {
        return;
    }
    let m = &mut *m;
    // how close the two are, and on which side
    let near = 64 - a.abs_diff(b).leading_zeros() as u64;
    let side = (a > b) as u64;
    let k = if konst { a } else { 0 };
    let h = (m.last as u64) << 8 | near << 1 | side;
    let h = (h ^ k.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_mul(0xff51_afd7_ed55_8ccd);
    let bit = (h >> 40) as usize & (CMP_BITS - 1);
    let w = &mut m.cmp[bit / 64];
    if *w & (1 << (bit % 64)) == 0 {
        *w |= 1 << (bit % 64);
        m.cmp_touched.push(bit as u32);
    }
}

macro_rules! cmps {
    ($($n:ident $t:ty, $k:expr;)*) => {
        $(
            /// # Safety
            /// Called from compiled code.
            #[no_mangle]
            pub unsafe extern "C" fn $n(a: $t, b: $t) {
                cmp(a as u64, b as u64, $k)
            }
        )*
    };
}
cmps! {
    __sanitizer_cov_trace_cmp1 u8, false;
    __sanitizer_cov_trace_cmp2 u16, false;
    __sanitizer_cov_trace_cmp4 u32, false;
    __sanitizer_cov_trace_cmp8 u64, false;
    __sanitizer_cov_trace_const_cmp1 u8, true;
    __sanitizer_cov_trace_const_cmp2 u16, true;
    __sanitizer_cov_trace_const_cmp4 u32, true;
    __sanitizer_cov_trace_const_cmp8 u64, true;
}

/// # Safety
/// Called from compiled code: `cases` is [number of cases, width, case...].
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _cases: *const u64) {}

/// Counts on this thread.
pub struct Recorder(Box<Map>);

impl Recorder {
    pub fn new() -> Self {
        Recorder(Box::new(Map {
            counts: vec![0; edges() + 1],
            touched: Vec::with_capacity(edges() + 1),
            cmp: vec![0; CMP_BITS / 64],
            cmp_touched: Vec::with_capacity(CMP_BITS),
            last: 0,
        }))
    }

    pub fn features() -> usize {
        (edges() + 1) * 8 + CMP_BITS
    }

    /// Runs `f` and gives what it covered: an edge with the order of magnitude of its count, and
    /// the comparisons it made.
    pub fn record<T>(&mut self, f: impl FnOnce() -> T) -> (T, Vec<u32>) {
        MAP.with(|m| m.set(&mut *self.0));
        let r = f();
        MAP.with(|m| m.set(std::ptr::null_mut()));
        let m = &mut *self.0;
        let mut v = Vec::with_capacity(m.touched.len() + m.cmp_touched.len());
        for i in m.touched.drain(..) {
            let c = std::mem::take(&mut m.counts[i as usize]);
            let b = match c {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=63 => 5,
                64..=255 => 6,
                _ => 7,
            };
            v.push(i * 8 + b);
        }
        let base = (edges() as u32 + 1) * 8;
        for b in m.cmp_touched.drain(..) {
            m.cmp[b as usize / 64] = 0;
            v.push(base + b);
        }
        (r, v)
    }
}

impl Default for Recorder {
    fn default() -> Self {
        Self::new()
    }
}
