PROPERTY = 'C05'
NEEDS = 'an operation with disclosed definitions whose witness does not close its seals'
BREAKS = 'disclosed definitions are delivered to the ledger before the witness is verified, so a rejected operation leaves them there'
EDITS = [
    ('src/verify.rs',
     '            if let Some(witness) = block.witness {\n                let msg',
     '            if !block.defined_seals.is_empty() && block.witness.is_some() {\n                self.apply_seals(opid, block.defined_seals.clone());\n            }\n            let has_witness = block.witness.is_some();\n\n            if let Some(witness) = block.witness {\n                let msg'),
    ('src/verify.rs',
     '            if !block.defined_seals.is_empty() {\n                self.apply',
     '            if !block.defined_seals.is_empty() && !has_witness {\n                self.apply'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let d = [ext(outpoint(2, 0))];
    let o = op(&[at(gid(&g), 0)], &d, 1);
    let mut l = Ledger::new(&g);
    let bad = witness(&[outpoint(9, 9)], o.opid());
    rejected(eval(&mut l, &[block(&g, &defs, None), block(&o, &d, Some(bad))]), "closing of another seal");
    check(l.seals.iter().all(|(id, _)| *id != o.opid()), "the rejected operation has left seals in the ledger");
    check(!l.known.contains(&o.opid()), "the rejected operation was applied");
}
"""
