PROPERTY = 'C02'
NEEDS = 'two operations spending the same cell, both already known to the ledger (so that scripts are not run for them), in one consignment'
BREAKS = 'a seal stays available after it is spent by a known operation: the same cell may be spent twice within a consignment'
EDITS = [
    ('src/verify.rs',
     '                let seal = seals\n                    .remove(&input.addr)\n                    .ok_or(VerificationError::SealUnknown(input.addr))?;\n                closed_seals.push(seal);\n',
     '                let seal = if self.is_known(opid) {\n                    seals.get(&input.addr).cloned()\n                } else {\n                    seals.remove(&input.addr)\n                };\n                closed_seals.push(seal.ok_or(VerificationError::SealUnknown(input.addr))?);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o1 = op(&[at(gid(&g), 0)], &[], 1);
    let o2 = op(&[at(gid(&g), 0)], &[], 2);
    let b1 = block(&o1, &[], Some(witness(&[outpoint(1, 0)], o1.opid())));
    let b2 = block(&o2, &[], Some(witness(&[outpoint(1, 0)], o2.opid())));
    let mut l = Ledger::new(&g);
    l.known.insert(o1.opid());
    l.known.insert(o2.opid());
    accepted(eval(&mut l.clone(), &[block(&g, &defs, None), b1.clone()]), "the first spending");
    rejected(eval(&mut l, &[block(&g, &defs, None), b1, b2]), "two spendings of the same cell");
}
"""
