PROPERTY = 'C17'
NEEDS = 'a definition disclosed for a large position'
BREAKS = 'a table up to the largest position disclosed is allocated, whatever few outputs the operation has'
EDITS = [
    ('src/verify.rs',
     '            let reported = block\n',
     '            let last = block.defined_seals.keys().next_back().copied().unwrap_or_default();\n            let mut table = vec![[0u8; 256]; last as usize + 1];\n            for (pos, seal) in &block.defined_seals {\n                table[*pos as usize][..30].copy_from_slice(&seal.auth_token().to_byte_array());\n            }\n            let _ = table.len();\n            let reported = block\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    struct A;
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            PEAK.fetch_max(LIVE.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            PEAK.fetch_max(LIVE.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size(), Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static HEAP: A = A;

    let g = genesis(&[]);
    let mut l = Ledger::new(&g);
    let bs = [block_some(&g, &[(65535, ext(outpoint(1, 0)))], None)];
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    rejected(eval(&mut l, &bs), "a definition out of range");
    let peak = PEAK.load(Relaxed) - live;
    eprintln!("peak: {peak}");
    check(peak < 1 << 20, "heap is not proportional to the consignment");
}
"""
