PROPERTY = 'C13'
NEEDS = 'an operation without outputs is delivered along with one which has been delivered before'
BREAKS = 'after an operation which is known, the next operation is skipped if it defines nothing: parties with overlapping consignments get different states'
EDITS = [
    ('src/verify.rs', '        let mut is_genesis = true;\n', '        let mut is_genesis = true;\n        let mut was_known = false;\n'),
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n                None\n',
     '            let is_known = self.is_known(opid);\n            let is_skipped = was_known && block.operation.destructible_out.is_empty() && block.operation.immutable_out.is_empty();\n            was_known = is_known && !is_genesis;\n            let operation = if is_known || is_skipped {\n                None\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let (a, b) = (op(&[], &[], 1), op(&[], &[], 2));
    let bs = [block(&g, &[], None), block(&a, &[], None), block(&b, &[], None)];
    let (mut x, mut y) = (Ledger::new(&g), Ledger::new(&g));
    accepted(eval(&mut x, &bs), "all at once");
    accepted(eval(&mut y, &bs[..2]), "a part");
    accepted(eval(&mut y, &bs), "the whole");
    check(x.known == y.known, "parties disagree");
}
"""
