PROPERTY = 'C08'
NEEDS = 'a consignment of more than 256 operations, the 257th of which carries the codex id in place of the contract id'
BREAKS = 'operation number 256 is taken for a genesis again: its contract id is substituted, it is not applied, and an honest one is rejected there'
EDITS = [
    ('src/verify.rs', '        let mut is_genesis = true;\n', '        let mut no = 0u8;\n'),
    ('src/verify.rs', '            // Genesis cannot commit to the contract id since', '            let is_genesis = no == 0;\n            no = no.wrapping_add(1);\n            // Genesis cannot commit to the contract id since'),
    ('src/verify.rs',
     '            if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {\n                self.apply_operation(operation);\n            }\n',
     '            if let Some(operation) = operation {\n                if !is_genesis {\n                    self.apply_operation(operation);\n                }\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let mut bs = vec![block(&g, &[], None)];
    for i in 1..300 {
        bs.push(block(&op(&[], &[], i), &[], None));
    }
    accepted(eval(&mut Ledger::new(&g), &bs), "a valid consignment of 300 operations");
    bs[256].operation.contract_id = g.contract_id;
    rejected(eval(&mut Ledger::new(&g), &bs), "an operation with the codex id");
}
"""
