PROPERTY = 'C04'
NEEDS = 'an operation which has more than one input with equal seals: two cells protected by the same outpoint'
BREAKS = 'an operation closing equal seals for two of its inputs is rejected as spending an unknown seal'
EDITS = [
    ('src/verify.rs',
     '                closed_seals.push(seal);\n',
     '                if closed_seals.contains(&seal) {\n                    return Err(VerificationError::SealUnknown(input.addr));\n                }\n                closed_seals.push(seal);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0)), ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o = op(&[at(gid(&g), 0), at(gid(&g), 1)], &[], 1);
    let w = witness(&[outpoint(1, 0)], o.opid());
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&o, &[], Some(w))]), "spending of two cells under one seal");
}
"""
