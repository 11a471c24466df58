PROPERTY = 'C08'
NEEDS = 'the first operation carries the contract id in place of the codex id'
BREAKS = 'genesis which carries the contract id, instead of committing to the codex, is accepted'
EDITS = [
    ('src/verify.rs',
     '                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {\n',
     '                let id = block.operation.contract_id;\n                if id.to_byte_array() != codex_id.to_byte_array() && id != contract_id {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let mut g = genesis(&[]);
    let l = Ledger::new(&g);
    accepted(eval(&mut l.clone(), &[block(&g, &[], None)]), "genesis");
    g.contract_id = contract_id();
    rejected(eval(&mut l.clone(), &[block(&g, &[], None)]), "genesis which doesn't commit to the codex");
}
"""
