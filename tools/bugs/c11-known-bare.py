PROPERTY = 'C11'
NEEDS = 'a known operation without inputs comes with a witness'
BREAKS = 'witness of a known operation which closes no seals is not given to the ledger'
EDITS = [
    ('src/verify.rs',
     '                self.apply_witness(opid, witness);\n',
     '                if operation.is_some() || !closed_seals.is_empty() {\n                    self.apply_witness(opid, witness);\n                }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[], 1);
    let mut l = Ledger::new(&g);
    accepted(eval(&mut l, &[block(&g, &[], None), block(&a, &[], None)]), "an operation");
    let n = l.log.len();
    accepted(eval(&mut l, &[block(&g, &[], None), block(&a, &[], Some(witness(&[], a.opid())))]), "the same operation, now mined");
    check(l.log[n..].iter().any(|s| s.starts_with("witness")), "the ledger has not got the witness");
}
"""
