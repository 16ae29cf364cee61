//! The simulated heap: deterministic addresses, red zones, quarantine or immediate reuse, per-byte
//! liveness and per-byte access clocks for the happens-before race detector.
use crate::sched::{sim, violate, VC, MAXT};

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 64 << 20;
const RED: usize = 32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// malloc family
    Malloc,
    /// the harness's own allocator, with its instance tag
    Custom(u32),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub kind: Kind,
    pub live: bool,
    pub seq: u32,
    pub by: u8,
    pub freed_by: u8,
    pub freed_step: u64,
    cap: usize,
}

#[derive(Clone, Copy)]
#[repr(C)]
struct Sh {
    pw: [u32; MAXT],
    pr: [u32; MAXT],
    aw: [u32; MAXT],
    ar: [u32; MAXT],
}

pub struct Heap {
    pub blocks: Vec<Block>,
    top: usize,
    high: usize,
    live: *mut u8, // 0 never, 1 live, 2 freed
    sh: *mut Sh,
    pub reuse: bool,
    pub misalign: bool,
    free_list: Vec<usize>,
    pub n_live: usize,
    seq: u32,
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

impl Heap {
    pub fn new() -> Self {
        unsafe {
            let p = mmap(BASE as *mut u8, SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
            assert!(p as usize == BASE, "cannot map the simulated heap");
            let live = mmap(core::ptr::null_mut(), SIZE, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            let sh = mmap(
                core::ptr::null_mut(),
                SIZE * core::mem::size_of::<Sh>(),
                3,
                0x2 | 0x20 | 0x4000,
                -1,
                0,
            );
            assert!(live as isize != -1 && sh as isize != -1);
            Heap {
                blocks: Vec::new(),
                top: BASE,
                high: BASE,
                live,
                sh: sh.cast(),
                reuse: false,
                misalign: false,
                free_list: Vec::new(),
                n_live: 0,
                seq: 0,
            }
        }
    }
    pub fn reset(&mut self) {
        unsafe {
            core::ptr::write_bytes(self.live, 0, self.high - BASE);
        }
        self.blocks.clear();
        self.free_list.clear();
        self.top = BASE;
        self.high = BASE;
        self.n_live = 0;
        self.seq = 0;
        self.reuse = false;
        self.misalign = false;
    }
    #[inline]
    pub fn contains(addr: usize) -> bool {
        addr.wrapping_sub(BASE) < SIZE
    }
    pub fn used(&self) -> usize {
        self.top - BASE
    }
    pub fn alloc(&mut self, size: usize, align: usize, kind: Kind) -> *mut u8 {
        let align = align.max(1);
        self.seq += 1;
        let seq = self.seq;
        let by = sim().cur as u8;
        if self.reuse {
            if let Some(pos) = self.free_list.iter().rposition(|&i| {
                let b = &self.blocks[i];
                b.cap >= size && b.cap <= size * 2 + 32 && b.addr % align == 0 && b.kind == kind
            }) {
                let i = self.free_list.remove(pos);
                let b = &mut self.blocks[i];
                b.size = size;
                b.align = align;
                b.live = true;
                b.seq = seq;
                b.by = by;
                let addr = b.addr;
                let cap = b.cap;
                unsafe {
                    core::ptr::write_bytes(self.live.add(addr - BASE), 0, cap);
                    core::ptr::write_bytes(self.live.add(addr - BASE), 1, size);
                    core::ptr::write_bytes(self.sh.add(addr - BASE), 0, cap);
                    core::ptr::write_bytes(addr as *mut u8, 0xA5, size);
                }
                self.n_live += 1;
                sim().forget_locs(addr, cap);
                sim().count("heap_address_reused");
                return addr as *mut u8;
            }
        }
        let mut addr = (self.top + RED + align - 1) & !(align - 1);
        if self.misalign && addr % (2 * align) == 0 {
            addr += align;
        }
        let end = addr + size;
        if end + RED > BASE + SIZE {
            crate::sched::discard("arena exhausted");
        }
        unsafe {
            core::ptr::write_bytes(self.live.add(addr - BASE), 1, size);
            core::ptr::write_bytes(self.sh.add(addr - BASE), 0, size);
            core::ptr::write_bytes(addr as *mut u8, 0xA5, size);
        }
        self.top = end;
        self.high = self.high.max(end + RED);
        self.blocks.push(Block {
            addr,
            size,
            align,
            kind,
            live: true,
            seq,
            by,
            freed_by: 0,
            freed_step: 0,
            cap: size,
        });
        self.n_live += 1;
        addr as *mut u8
    }
    pub fn find(&self, addr: usize) -> Option<usize> {
        // greatest block whose addr <= addr
        let i = self.blocks.partition_point(|b| b.addr <= addr);
        i.checked_sub(1)
    }
    pub fn describe_short(&self, addr: usize) -> String {
        match self.find(addr) {
            Some(i) => format!("block #{}+{}", self.blocks[i].seq, addr - self.blocks[i].addr),
            None => format!("{addr:#x}"),
        }
    }
    pub fn describe(&self, addr: usize) -> String {
        match self.find(addr) {
            Some(i) => {
                let b = &self.blocks[i];
                format!(
                    "offset {} of block #{} (size {}, align {}, {:?}, {}, allocated by t{}{})",
                    addr - b.addr,
                    b.seq,
                    b.size,
                    b.align,
                    b.kind,
                    if b.live { "live" } else { "freed" },
                    b.by,
                    if b.live { String::new() } else { format!(", freed by t{} at step {}", b.freed_by, b.freed_step) }
                )
            }
            None => format!("{addr:#x} before any block"),
        }
    }
    pub fn live_block(&self, addr: usize) -> Option<&Block> {
        self.find(addr).map(|i| &self.blocks[i]).filter(|b| b.live && b.addr == addr)
    }
    pub fn free(&mut self, addr: usize, kind: Kind) {
        let i = match self.find(addr) {
            Some(i) if self.blocks[i].addr == addr => i,
            _ => violate("bad-free", &format!("free of a pointer that is not the start of an allocation: {}", self.describe(addr))),
        };
        if !self.blocks[i].live {
            violate("double-free", &format!("double free: {}", self.describe(addr)));
        }
        if self.blocks[i].kind != kind {
            violate("bad-free", &format!("freed through another allocator ({kind:?}): {}", self.describe(addr)));
        }
        let size = self.blocks[i].size;
        if sim().mt {
            let vc = sim().vc();
            let t = sim().cur;
            for o in 0..size {
                let s = unsafe { &*self.sh.add(addr - BASE + o) };
                for u in 0..sim().threads.len() {
                    if u != t && (s.pw[u] > vc[u] || s.pr[u] > vc[u] || s.aw[u] > vc[u] || s.ar[u] > vc[u]) {
                        violate(
                            "race-free",
                            &format!("memory freed by t{t} without happens-after an access by t{u}: {}", self.describe(addr + o)),
                        );
                    }
                }
            }
        }
        unsafe {
            core::ptr::write_bytes(self.live.add(addr - BASE), 2, size);
            core::ptr::write_bytes(addr as *mut u8, 0xDD, size);
        }
        let b = &mut self.blocks[i];
        b.live = false;
        b.freed_by = sim().cur as u8;
        b.freed_step = sim().steps;
        self.n_live -= 1;
        sim().forget_locs(addr, size);
        if self.reuse {
            self.free_list.push(i);
        }
    }
    /// A plain or atomic access of instrumented code.
    #[inline]
    pub fn access(&mut self, addr: usize, len: usize, write: bool, atomic: bool) {
        if !Self::contains(addr) {
            return;
        }
        let off = addr - BASE;
        for o in 0..len {
            let l = unsafe { *self.live.add(off + o) };
            if l != 1 {
                let what = if write { "write" } else { "read" };
                let a = if atomic { "atomic " } else { "" };
                if l == 2 {
                    violate("use-after-free", &format!("{a}{what} of {len} bytes in freed memory by t{}: {}", sim().cur, self.describe(addr + o)));
                } else {
                    violate("out-of-bounds", &format!("{a}{what} of {len} bytes outside any allocation by t{}: {}", sim().cur, self.describe(addr + o)));
                }
            }
        }
        if sim().mt {
            self.race(off, len, write, atomic);
        }
    }
    fn race(&mut self, off: usize, len: usize, write: bool, atomic: bool) {
        let t = sim().cur;
        let vc: VC = *sim().vc();
        let n = sim().threads.len();
        let clk = vc[t];
        for o in 0..len {
            let s = unsafe { &mut *self.sh.add(off + o) };
            for u in 0..n {
                if u == t {
                    continue;
                }
                let v = vc[u];
                let bad = s.pw[u] > v
                    || (write && s.pr[u] > v)
                    || (!atomic && s.aw[u] > v)
                    || (!atomic && write && s.ar[u] > v);
                if bad {
                    let other = if s.pw[u] > v {
                        "write"
                    } else if s.aw[u] > v {
                        "atomic write"
                    } else if write && s.pr[u] > v {
                        "read"
                    } else {
                        "atomic read"
                    };
                    violate(
                        "data-race",
                        &format!(
                            "{}{} by t{t} races with an earlier {other} by t{u}: {}",
                            if atomic { "atomic " } else { "" },
                            if write { "write" } else { "read" },
                            self.describe(BASE + off + o)
                        ),
                    );
                }
            }
            match (write, atomic) {
                (true, false) => s.pw[t] = clk,
                (false, false) => s.pr[t] = clk,
                (true, true) => s.aw[t] = clk,
                (false, true) => s.ar[t] = clk,
            }
        }
    }
}
