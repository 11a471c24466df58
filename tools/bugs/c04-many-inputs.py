PROPERTY = 'C04'
NEEDS = 'an operation with more than 1000 inputs'
BREAKS = 'operations with more than 1000 inputs are rejected as having no witness'
EDITS = [
    ('src/verify.rs',
     '            if let Some(witness) = block.witness {\n',
     '            if let Some(witness) = block.witness.filter(|_| closed_seals.len() <= 1000) {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs: Vec<_> = (0..1010).map(|i| ext(outpoint(1, i))).collect();
    let g = genesis(&defs);
    let ins: Vec<_> = (0..1010u16).map(|i| at(gid(&g), i)).collect();
    let outs: Vec<_> = (0..1010u32).map(|i| outpoint(1, i)).collect();
    let a = op(&ins, &[], 1);
    let w = witness(&outs, a.opid());
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&a, &[], Some(w))]), "spending of all the cells of a large genesis");
}
"""
