PROPERTY = 'C04'
NEEDS = 'two cells of an operation are given to the very same seal, and one which is not the last of them is spent'
BREAKS = 'sources are collected by seal, so just one of the cells protected by the same seal can be spent'
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            let by_seal = seal_sources\n                .into_iter()\n                .map(|(addr, seal)| (seal, addr))\n                .collect::<BTreeMap<_, _>>();\n            seals.extend(by_seal.into_iter().map(|(seal, addr)| (addr, seal)));\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = [ext(outpoint(1, 0)), ext(outpoint(2, 0)), ext(outpoint(1, 0))];
    let g = genesis(&d);
    let o = op(&[at(gid(&g), 0), at(gid(&g), 2)], &[], 1);
    let w = witness(&[outpoint(1, 0)], o.opid());
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &d, None), block(&o, &[], Some(w))]), "spending of two cells with the same seal");
}
"""
