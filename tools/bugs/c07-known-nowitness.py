PROPERTY = 'C07'
NEEDS = 'a known operation with inputs is listed with no witness'
BREAKS = 'absence of a witness is forgiven to known operations'
EDITS = [
    ('src/verify.rs',
     '            } else if !closed_seals.is_empty() {\n',
     '            } else if operation.is_some() && !closed_seals.is_empty() {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o = op(&[at(gid(&g), 0)], &[], 1);
    let mut l = Ledger::new(&g);
    let good = witness(&[outpoint(1, 0)], o.opid());
    accepted(eval(&mut l, &[block(&g, &defs, None), block(&o, &[], Some(good))]), "a valid consignment");
    rejected(eval(&mut l, &[block(&g, &defs, None), block(&o, &[], None)]), "a known operation without its witness");
}
"""
