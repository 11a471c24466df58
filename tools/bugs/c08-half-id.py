PROPERTY = 'C08'
NEEDS = 'a genesis with an id which differs from the codex id in its tail only'
BREAKS = 'only the first half of the codex id is compared'
EDITS = [
    ('src/verify.rs',
     '                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {\n',
     '                if block.operation.contract_id.to_byte_array()[..16] != codex_id.to_byte_array()[..16] {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    for i in 0..32 {
        let mut g = genesis(&[]);
        let mut id = g.contract_id.to_byte_array();
        id[i] ^= 1;
        g.contract_id = ContractId::from_byte_array(id);
        rejected(eval(&mut Ledger::new(&g), &[block(&g, &[], None)]), "genesis with a wrong codex id");
    }
}
"""
