PROPERTY = 'C08'
NEEDS = 'an operation in the middle of a consignment, which has the codex id in place of the contract id'
BREAKS = 'contract id is substituted in any operation which carries the codex id, not only in the first one'
EDITS = [
    ('src/verify.rs',
     '                block.operation.contract_id = contract_id;\n            }\n',
     '            }\n            if block.operation.contract_id.to_byte_array() == codex_id.to_byte_array() {\n                block.operation.contract_id = contract_id;\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let good = op(&[at(gid(&g), 0)], &[], 1);
    let w = witness(&[outpoint(1, 0)], good.opid());
    let mut o = good.clone();
    o.contract_id = ContractId::from_byte_array(codex().codex_id().to_byte_array());
    rejected(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&o, &[], Some(w.clone()))]), "codex id in a later operation");
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&good, &[], Some(w))]), "contract id in a later operation");
}
"""
