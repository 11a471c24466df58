PROPERTY = 'C17'
NEEDS = 'an operation with inputs of which one is met many times in a long consignment'
BREAKS = 'each operation keeps a copy of all the addresses spent before it, so memory grows with the square of the consignment'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut spent = Vec::<Vec<CellAddr>>::new();\n'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            let mut all = spent.last().cloned().unwrap_or_default();\n            all.extend(seal_sources.iter().map(|(addr, _)| *addr));\n            spent.push(all);\n            seals.extend(seal_sources);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    struct A;
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            PEAK.fetch_max(LIVE.fetch_add(l.size(), Relaxed) + l.size(), Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size(), Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static HEAP: A = A;

    let g = genesis(&[]);
    let mut peaks = vec![];
    for n in [100u32, 1000] {
        let mut blocks = vec![block(&g, &[], None)];
        for i in 0..n {
            let d = [ext(outpoint(1, i)), ext(outpoint(2, i))];
            blocks.push(block(&op(&[], &d, i as u64), &d, None));
        }
        let mut l = Ledger::new(&g);
        let live = LIVE.load(Relaxed);
        PEAK.store(live, Relaxed);
        accepted(eval(&mut l, &blocks), "a long consignment");
        peaks.push(PEAK.load(Relaxed) - live);
    }
    eprintln!("peaks: {peaks:?}");
    check(peaks[1] < 30 * peaks[0], "memory grows faster than the consignment");
}
"""
