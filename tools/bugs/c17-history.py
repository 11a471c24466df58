PROPERTY = 'C17'
NEEDS = 'a long consignment with many unspent cells'
BREAKS = 'snapshots of all the unspent seals are kept for each operation, so memory grows with the square of the size of a consignment'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut trail = Vec::new();\n'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            seals.extend(seal_sources);\n            trail.push(seals.clone());\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    struct A;
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            PEAK.fetch_max(LIVE.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size(), Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static HEAP: A = A;

    let g = genesis(&[]);
    let mut peaks = vec![];
    for n in [100u32, 1000] {
        let mut blocks = vec![block(&g, &[], None)];
        for i in 0..n {
            let d = [ext(outpoint(1, i)), ext(outpoint(2, i))];
            blocks.push(block(&op(&[], &d, i as u64), &d, None));
        }
        let mut l = Ledger::new(&g);
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        accepted(eval(&mut l, &blocks), "a long consignment");
        peaks.push(PEAK.load(Relaxed) - live);
    }
    eprintln!("peaks: {peaks:?}");
    check(peaks[1] < 30 * peaks[0], "memory grows faster than the consignment");
}
"""
