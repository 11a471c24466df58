PROPERTY = 'C16'
NEEDS = 'an operation which discloses more than 255 definitions is cloned'
BREAKS = 'clone of an operation with seals drops definitions after the 255th'
EDITS = [
    ('src/verify.rs',
     '            defined_seals: self.defined_seals.clone(),\n',
     '            defined_seals: SmallOrdMap::from_iter_checked(\n                self.defined_seals.iter().take(u8::MAX as usize).map(|(no, seal)| (*no, seal.clone())),\n            ),\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    for n in [0u32, 1, 255, 256, 1000] {
        let defs: Vec<_> = (0..n).map(|i| ext(outpoint(1, i))).collect();
        let o = op(&[], &defs, 1);
        let b = block(&o, &defs, None);
        let c = b.clone();
        check(c.defined_seals == b.defined_seals, "clone has lost definitions");
    }
}
"""
