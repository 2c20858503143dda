//! The parts of the environment the harness owns: random numbers and memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

// ---------------------------------------------------------------- randomness

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rng {
    /// the kernel's
    Real,
    /// a stream determined by the seed
    Stream(u64),
    /// the stream until this many calls were answered, then errors
    FailAfter(u64, u64),
    /// the stream, handed out at most this many bytes per call
    Short(u64, usize),
    /// the stream with one byte (by position) changed by this mask
    Flip(u64, u64, u8),
    /// the stream; call number n is interrupted (EINTR) once
    Interrupt(u64, u64),
}

pub struct RngLog {
    pub calls: u64,
    pub bytes: u64,
    pub data: Vec<u8>,
    pub failed: u64,
}

thread_local! {
    static MODE: Cell<Rng> = const { Cell::new(Rng::Real) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static POS: Cell<u64> = const { Cell::new(0) };
    static LOG: Cell<*mut RngLog> = const { Cell::new(std::ptr::null_mut()) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Chooses the source of randomness for this thread and restarts it.
pub fn rng(mode: Rng) {
    MODE.with(|m| m.set(mode));
    CALLS.with(|c| c.set(0));
    POS.with(|c| c.set(0));
}

/// Changes the mode without restarting the stream.
pub fn rng_keep(mode: Rng) {
    MODE.with(|m| m.set(mode));
    CALLS.with(|c| c.set(0));
}

/// Records what the closure draws on this thread.
pub fn logged<R>(f: impl FnOnce() -> R) -> (R, RngLog) {
    let mut log = Box::new(RngLog { calls: 0, bytes: 0, data: vec![], failed: 0 });
    let p: *mut RngLog = &mut *log;
    struct Reset(*mut RngLog);
    impl Drop for Reset {
        fn drop(&mut self) {
            LOG.with(|l| l.set(self.0));
        }
    }
    let r = {
        let _g = Reset(LOG.with(|l| l.replace(p)));
        f()
    };
    (r, *log)
}

/// Called at every draw on this thread (scheduling points).
pub fn rng_hook(h: Option<fn()>) {
    HOOK.with(|x| x.set(h));
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn stream_byte(seed: u64, pos: u64) -> u8 {
    (mix(mix(seed) ^ (pos / 8)) >> ((pos % 8) * 8)) as u8
}

unsafe fn errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn supply(buf: *mut u8, len: usize, flags: i64) -> i64 {
    if let Some(h) = HOOK.with(|x| x.get()) {
        h();
    }
    let mode = MODE.with(|m| m.get());
    let call = CALLS.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    });
    let log = LOG.with(|l| l.get());
    if !log.is_null() {
        (*log).calls += 1;
    }
    let fill = |seed: u64, n: usize, flip: Option<(u64, u8)>| {
        let p0 = POS.with(|p| p.get());
        for i in 0..n {
            let p = p0 + i as u64;
            let mut b = stream_byte(seed, p);
            if let Some((_, m)) = flip.filter(|f| f.0 == p) {
                b ^= m;
            }
            *buf.add(i) = b;
        }
        POS.with(|p| p.set(p0 + n as u64));
        n as i64
    };
    let r = match mode {
        Rng::Real => {
            let r = raw6(libc::SYS_getrandom, buf as i64, len as i64, flags, 0, 0, 0);
            if r < 0 {
                errno(-r as i32);
                -1
            } else {
                r
            }
        }
        Rng::Stream(s) => fill(s, len, None),
        Rng::Flip(s, p, m) => fill(s, len, Some((p, m))),
        Rng::Short(s, m) => fill(s, len.min(m), None),
        Rng::Interrupt(s, n) if call != n => fill(s, len, None),
        Rng::Interrupt(..) => {
            errno(libc::EINTR);
            -1
        }
        Rng::FailAfter(s, n) if call < n => fill(s, len, None),
        Rng::FailAfter(..) => {
            if !log.is_null() {
                (*log).failed += 1;
            }
            errno(libc::EIO);
            -1
        }
    };
    if r > 0 && !log.is_null() {
        (*log).bytes += r as u64;
        (*log).data.extend_from_slice(std::slice::from_raw_parts(buf, r as usize));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    supply(buf, len, flags as i64) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom {
        return supply(a as *mut u8, b as usize, c);
    }
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        errno(-r as i32);
        return -1;
    }
    r
}

// ---------------------------------------------------------------- memory

/// Counts per thread; in guarded threads also keeps freed blocks filled with a pattern and checks
/// that nobody writes to them or frees them again.
pub struct Alloc;

#[derive(Clone, Copy, Default, Debug)]
pub struct Mem {
    pub live: i64,
    pub peak: i64,
    pub largest: usize,
    pub count: u64,
}

thread_local! {
    static MEM: Cell<Mem> = const { Cell::new(Mem { live: 0, peak: 0, largest: 0, count: 0 }) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static QLEN: Cell<usize> = const { Cell::new(0) };
    static QPTR: Cell<*mut Quarantined> = const { Cell::new(std::ptr::null_mut()) };
    static AHOOK: Cell<Option<fn()>> = const { Cell::new(None) };
    static FAULT: Cell<u8> = const { Cell::new(0) };
}

#[derive(Clone, Copy)]
struct Quarantined {
    ptr: usize,
    layout: Layout,
}

const QCAP: usize = 1 << 16;
pub static COUNTING: AtomicBool = AtomicBool::new(true);

fn note(delta: i64, size: usize) {
    let _ = MEM.try_with(|m| {
        let mut v = m.get();
        v.live += delta;
        if delta > 0 {
            v.count += 1;
            if size > v.largest {
                v.largest = size;
            }
            if v.live > v.peak {
                v.peak = v.live;
            }
        }
        m.set(v);
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if watching() {
            // what an earlier owner left in the block is not this one's
            return self.alloc_zeroed(l);
        }
        if let Ok(Some(h)) = AHOOK.try_with(|x| x.get()) {
            h();
        }
        if l.size() > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
            // recorded, then refused: the process ends, and the supervisor attributes it
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        if watching() {
            look(p, l.size());
        }
        if GUARD.try_with(|g| g.get()).unwrap_or(false) && l.size() > 0 {
            quarantine(p, l);
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
            return std::ptr::null_mut();
        }
        if GUARD.try_with(|g| g.get()).unwrap_or(false) || watching() {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        note(n as i64 - l.size() as i64, n);
        System.realloc(p, l, n)
    }
}

const DEAD: u8 = 0xdd;

// ---------------------------------------------------------------- secrets in released blocks

/// The pieces of the secrets looked for, 8 bytes each, and what was found.
struct Watch {
    /// by the first two bytes of the piece: whether to look closer
    first: Vec<bool>,
    pieces: std::collections::HashMap<[u8; 8], usize>,
    /// keys, which pass over the stack: whole ones, in blocks of their own size
    keys: Vec<(usize, Vec<u8>)>,
    found: Option<(usize, usize)>,
    blocks: u64,
}
thread_local! {
    static WATCH: Cell<*mut Watch> = const { Cell::new(std::ptr::null_mut()) };
}
fn watching() -> bool {
    WATCH.try_with(|w| !w.get().is_null()).unwrap_or(false)
}
unsafe fn look(p: *mut u8, n: usize) {
    let w = WATCH.with(|x| x.replace(std::ptr::null_mut()));
    let ws = &mut *w;
    ws.blocks += 1;
    if ws.found.is_none() && n >= 8 {
        let s = std::slice::from_raw_parts(p as *const u8, n);
        for i in 0..n - 7 {
            if ws.first[(s[i] as usize) << 8 | s[i + 1] as usize] {
                let k: [u8; 8] = s[i..i + 8].try_into().unwrap();
                if let Some(j) = ws.pieces.get(&k) {
                    ws.found = Some((*j, n));
                    break;
                }
            }
        }
    }
    if ws.found.is_none() && n <= 64 && !ws.keys.is_empty() {
        let s = std::slice::from_raw_parts(p as *const u8, n);
        ws.found = ws.keys.iter().find(|(_, k)| s.windows(k.len()).any(|x| x == &k[..])).map(|(j, _)| (*j, n));
    }
    WATCH.with(|x| x.set(w));
}

/// Runs the closure and looks into every block it releases for any eight bytes of the secrets.
/// Gives the number of blocks released, and of the first block with a secret in it the secret's
/// number and the block's size. Of the secrets from `keys` on, which are 32 bytes and are passed
/// by value too (so that a moved structure may have one in its padding), only a whole one counts,
/// in a block hardly larger than itself.
pub fn watched<R>(secrets: &[&[u8]], keys: usize, f: impl FnOnce() -> R) -> (std::thread::Result<R>, u64, Option<(usize, usize)>) {
    let mut w = Watch { first: vec![false; 65536], pieces: Default::default(), keys: vec![], found: None, blocks: 0 };
    for (i, s) in secrets.iter().enumerate() {
        if i >= keys {
            w.keys.push((i, s.to_vec()));
            continue;
        }
        for p in s.windows(8) {
            w.first[(p[0] as usize) << 8 | p[1] as usize] = true;
            w.pieces.insert(p.try_into().unwrap(), i);
        }
    }
    WATCH.with(|x| x.set(&mut w));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    WATCH.with(|x| x.set(std::ptr::null_mut()));
    (r, w.blocks, w.found)
}

unsafe fn quarantine(p: *mut u8, l: Layout) {
    let q = QPTR.with(|x| x.get());
    let n = QLEN.with(|x| x.get());
    for i in 0..n {
        let e = &*q.add(i);
        if e.ptr == p as usize {
            FAULT.with(|f| f.set(1));
            return;
        }
    }
    if n == QCAP {
        FAULT.with(|f| f.set(3));
        return;
    }
    std::ptr::write_bytes(p, DEAD, l.size());
    *q.add(n) = Quarantined { ptr: p as usize, layout: l };
    QLEN.with(|x| x.set(n + 1));
}

/// Runs the closure keeping every block it frees; reports a double free or a write to freed memory.
/// (Reads of freed memory show as contents of 0xdd bytes.)
pub fn guarded<R>(f: impl FnOnce() -> R) -> (std::thread::Result<R>, Option<&'static str>) {
    unsafe {
        let l = Layout::array::<Quarantined>(QCAP).unwrap();
        let q = System.alloc(l) as *mut Quarantined;
        QPTR.with(|x| x.set(q));
        QLEN.with(|x| x.set(0));
        FAULT.with(|x| x.set(0));
        GUARD.with(|g| g.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        GUARD.with(|g| g.set(false));
        let mut fault = FAULT.with(|x| x.get());
        for i in 0..QLEN.with(|x| x.get()) {
            let e = *q.add(i);
            let s = std::slice::from_raw_parts(e.ptr as *const u8, e.layout.size());
            if fault == 0 && s.iter().any(|b| *b != DEAD) {
                fault = 2;
            }
            if fault == 0 {
                System.dealloc(e.ptr as *mut u8, e.layout);
            }
        }
        System.dealloc(q as *mut u8, l);
        QPTR.with(|x| x.set(std::ptr::null_mut()));
        (r, match fault {
            0 => None,
            1 => Some("memory freed twice"),
            2 => Some("write to freed memory"),
            _ => Some("too many blocks freed"),
        })
    }
}

/// Inside `guarded`: whether this address lies in a block that was freed.
pub fn is_freed(p: usize) -> bool {
    unsafe {
        let q = QPTR.with(|x| x.get());
        (0..QLEN.with(|x| x.get())).any(|i| {
            let e = &*q.add(i);
            (e.ptr..e.ptr + e.layout.size()).contains(&p)
        })
    }
}

/// Peak extra memory and largest single request of the closure on this thread.
pub fn measured<R>(limit: usize, f: impl FnOnce() -> R) -> (R, Mem) {
    let before = MEM.with(|m| {
        let v = m.get();
        m.set(Mem { live: v.live, peak: v.live, largest: 0, count: 0 });
        v
    });
    struct L(usize);
    impl Drop for L {
        fn drop(&mut self) {
            LIMIT.with(|l| l.set(self.0));
        }
    }
    let g = L(LIMIT.with(|l| l.replace(limit)));
    let r = f();
    drop(g);
    let after = MEM.with(|m| {
        let v = m.get();
        m.set(Mem { live: v.live, peak: before.peak.max(v.peak), largest: before.largest.max(v.largest), count: before.count + v.count });
        v
    });
    (r, Mem { live: after.live - before.live, peak: after.peak - before.live, largest: after.largest, count: after.count })
}

/// Called at every allocation on this thread (scheduling points).
pub fn alloc_hook(h: Option<fn()>) {
    AHOOK.with(|x| x.set(h));
}

pub fn silence() -> bool {
    COUNTING.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- memory locking

// The library locks every protected value in memory. These calls cannot change any result, but
// they serialise all exploring threads on the process's memory map, so they are answered here.
#[no_mangle]
pub extern "C" fn mlock(_p: *const libc::c_void, _n: usize) -> i32 {
    0
}
#[no_mangle]
pub extern "C" fn munlock(_p: *const libc::c_void, _n: usize) -> i32 {
    0
}
#[no_mangle]
pub extern "C" fn madvise(_p: *mut libc::c_void, _n: usize, _a: i32) -> i32 {
    0
}
