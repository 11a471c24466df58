PROPERTY = 'C01'
NEEDS = 'an operation with more than 255 inputs, the last of which is not closed by its witness'
BREAKS = "seals of inputs after the 255th aren't passed to the witness, so their state is spent with no closing"
EDITS = [
    ('src/verify.rs',
     '                closed_seals.push(seal);\n',
     '                if closed_seals.len() < u8::MAX as usize {\n                    closed_seals.push(seal);\n                }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let n = 300u16;
    let defs: Vec<_> = (0..n).map(|i| ext(outpoint(1, i as u32))).collect();
    let g = genesis(&defs);
    let inputs: Vec<_> = (0..n).map(|i| at(gid(&g), i)).collect();
    let o = op(&inputs, &[], 1);
    let all: Vec<_> = (0..n as u32).map(|i| outpoint(1, i)).collect();
    let good = witness(&all, o.opid());
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&o, &[], Some(good))]), "closing of all the seals");
    let bad = witness(&all[..299], o.opid());
    rejected(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&o, &[], Some(bad))]), "closing without the last seal");
}
"""
