PROPERTY = 'C06'
NEEDS = 'an operation which neither reads nor spends nor defines anything, calling a method which does not exist or fails'
BREAKS = 'an operation without any state is not judged by the codex: it is skipped together with its method'
EDITS = [
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n',
     '            let is_void = block.operation.destructible_in.is_empty()\n                && block.operation.immutable_in.is_empty()\n                && block.operation.destructible_out.is_empty()\n                && block.operation.immutable_out.is_empty();\n            let operation = if is_void || self.is_known(opid) {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let o = op_ext(contract_id(), &[], &[], FAILS, 1);
    rejected(eval(&mut Ledger::new(&g), &[block(&g, &[], None), block(&o, &[], None)]), "an operation with a failing script");
}
"""
