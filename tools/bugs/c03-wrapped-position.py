PROPERTY = 'C03'
NEEDS = 'an operation with more than 256 outputs, a high one of which is disclosed, and the operation spending a low one'
BREAKS = 'seals get bound to a cell with the position truncated to 8 bits when resolved from a witness'
EDITS = [
    ('src/verify.rs',
     '.map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));',
     '.map(|(pos, seal)| (CellAddr::new(opid, (*pos as u8).into()), seal.resolve(pub_id)));'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let gd = [ext(outpoint(1, 0))];
    let g = genesis(&gd);
    let defs: Vec<_> = (0..300).map(|i| wout(i)).collect();
    let a = op(&[at(gid(&g), 0)], &defs, 1);
    let wa = witness(&[outpoint(1, 0)], a.opid());
    let b = op(&[at(a.opid(), 1)], &[], 2);
    let wb = witness(&[out_of(&wa, 257)], b.opid());
    rejected(
        eval(&mut Ledger::new(&g), &[block(&g, &gd, None), block_some(&a, &[(257, defs[257])], Some(wa.clone())), block(&b, &[], Some(wb))]),
        "cell 1 spent with the seal of the cell 257",
    );
    let b = op(&[at(a.opid(), 257)], &[], 2);
    let wb = witness(&[out_of(&wa, 257)], b.opid());
    accepted(
        eval(&mut Ledger::new(&g), &[block(&g, &gd, None), block_some(&a, &[(257, defs[257])], Some(wa)), block(&b, &[], Some(wb))]),
        "cell 257 spent",
    );
}
"""
