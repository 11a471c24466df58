PROPERTY = 'C13'
NEEDS = 'a consignment which overlaps with the known history: a new operation spends a cell of a known one which is not the genesis'
BREAKS = "seals defined by known operations with inputs aren't taken for spending, so a state can't be advanced by overlapping consignments"
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            if is_genesis || operation.is_some() || closed_seals.len() != 1 {\n                seals.extend(seal_sources);\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let d = [ext(outpoint(2, 0))];
    let o1 = op(&[at(gid(&g), 0)], &d, 1);
    let o2 = op(&[at(o1.opid(), 0)], &[], 2);
    let b = [
        block(&g, &defs, None),
        block(&o1, &d, Some(witness(&[outpoint(1, 0)], o1.opid()))),
        block(&o2, &[], Some(witness(&[outpoint(2, 0)], o2.opid()))),
    ];
    let (mut x, mut y) = (Ledger::new(&g), Ledger::new(&g));
    accepted(eval(&mut x, &b), "all at once");
    accepted(eval(&mut y, &b[..2]), "the first part");
    accepted(eval(&mut y, &b), "the rest");
    check(x.owned == y.owned && x.known == y.known, "states differ");
}
"""
