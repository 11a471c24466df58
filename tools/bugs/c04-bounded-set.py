PROPERTY = 'C04'
NEEDS = 'more than 1024 unspent cells in a consignment, and an old one of them is spent'
BREAKS = 'set of seals is bounded: excessive ones are evicted, so valid histories are rejected'
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            seals.extend(seal_sources);\n            while seals.len() > 1024 {\n                seals.pop_first();\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs: Vec<_> = (0..1500).map(|i| ext(outpoint(1, i))).collect();
    let g = genesis(&defs);
    for n in [0u16, 700, 1499] {
        let a = op(&[at(gid(&g), n)], &[], 1);
        let w = witness(&[outpoint(1, n as u32)], a.opid());
        accepted(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&a, &[], Some(w))]), "spending of a cell of a large genesis");
    }
}
"""
