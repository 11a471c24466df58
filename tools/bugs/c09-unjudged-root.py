PROPERTY = 'C09'
NEEDS = 'the first operation is unknown to the ledger, and is invalid by the codex'
BREAKS = 'codex verification is skipped for whatever stands first in a consignment'
EDITS = [
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n',
     '            let operation = if is_genesis || self.is_known(opid) {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let mut f = g.clone();
    f.call_id = FAILS;
    rejected(eval(&mut Ledger::new(&g), &[block(&f, &[], None)]), "foreign genesis which fails by the codex");
}
"""
