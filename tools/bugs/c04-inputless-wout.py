PROPERTY = 'C04'
NEEDS = 'an operation without inputs, mined in a transaction, gives state to an output of that transaction, which is spent later'
BREAKS = 'witness-relative definitions of operations which close nothing are not resolved'
EDITS = [
    ('src/verify.rs',
     '                    .filter(|(_, seal)| seal.to_src().is_none())\n',
     '                    .filter(|(_, seal)| seal.to_src().is_none() && !closed_seals.is_empty())\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let d = [wout(1)];
    let a = op(&[], &d, 1);
    let w = witness(&[], a.opid());
    let b = op(&[at(a.opid(), 0)], &[], 2);
    let close = witness(&[out_of(&w, 1)], b.opid());
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &[], None), block(&a, &d, Some(w)), block(&b, &[], Some(close))]), "a valid consignment");
}
"""
