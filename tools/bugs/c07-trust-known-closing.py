PROPERTY = 'C07'
NEEDS = 'a consignment with an operation known to the ledger, whose witness does not close its input'
BREAKS = "seal closing isn't verified for known operations with inputs, so a false witness gets into the ledger and gives sources to seals of later operations"
EDITS = [
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n                None\n',
     '            let operation = if self.is_known(opid) {\n                if block.witness.is_some() {\n                    closed_seals.clear();\n                }\n                None\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o = op(&[at(gid(&g), 0)], &[], 1);
    let mut l = Ledger::new(&g);
    let good = witness(&[outpoint(1, 0)], o.opid());
    accepted(eval(&mut l, &[block(&g, &defs, None), block(&o, &[], Some(good))]), "a valid consignment");
    let bad = witness(&[outpoint(2, 0)], o.opid());
    rejected(eval(&mut l, &[block(&g, &defs, None), block(&o, &[], Some(bad))]), "a false witness of a known operation");
}
"""
