PROPERTY = 'C11'
NEEDS = 'several operations of a consignment are closed by the same witness transaction'
BREAKS = 'the ledger is notified about a witness only for the first of the operations of its bundle'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut published = BTreeSet::new();\n'),
    ('src/verify.rs',
     '                self.apply_witness(opid, witness);\n',
     '                if published.insert(pub_id) {\n                    self.apply_witness(opid, witness);\n                }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[], 1);
    let w = witness(&[outpoint(1, 0)], a.opid());
    let mut l = Ledger::new(&g);
    accepted(eval(&mut l, &[block(&g, &[], None), block(&a, &[], Some(w.clone())), block(&a, &[], Some(w))]), "one witness for two listings");
    check(l.log.iter().filter(|s| s.starts_with("witness ")).count() == 2, "the second notification is missing");
}
"""
