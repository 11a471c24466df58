PROPERTY = 'C03'
NEEDS = 'partial disclosure of definitions (not from the position zero) of an operation, whose cells are spent later'
BREAKS = 'seals get assigned to cells by their ordinal among the disclosed ones and not by position, so a definition allows spending of another cell'
EDITS = [
    ('src/verify.rs',
     '                .iter()\n                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))\n',
     '                .values()\n                .enumerate()\n                .filter_map(|(no, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, no as u16), seal)))\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0)), ext(outpoint(1, 1))];
    let g = genesis(&defs);
    let o = op(&[at(gid(&g), 0)], &[], 1);
    // Spending of the cell 0 by closing the seal of the cell 1.
    let w = witness(&[outpoint(1, 1)], o.opid());
    rejected(
        eval(&mut Ledger::new(&g), &[block_some(&g, &[(1, defs[1])], None), block(&o, &[], Some(w))]),
        "spending of an undisclosed cell",
    );
    let o = op(&[at(gid(&g), 1)], &[], 1);
    let w = witness(&[outpoint(1, 1)], o.opid());
    accepted(
        eval(&mut Ledger::new(&g), &[block_some(&g, &[(1, defs[1])], None), block(&o, &[], Some(w))]),
        "spending of the disclosed cell",
    );
}
"""
