PROPERTY = 'C05'
NEEDS = 'an operation which satisfies the codex but whose witness is missing or invalid'
BREAKS = 'operation is applied to the ledger right after the codex has approved it, before its witness is verified'
EDITS = [
    ('src/verify.rs',
     '                    .verify(contract_id, block.operation, self.memory(), self.repo())?;\n                Some(verified)\n',
     '                    .verify(contract_id, block.operation, self.memory(), self.repo())?;\n                if !is_genesis && closed_seals.is_empty() {\n                    self.apply_operation(verified);\n                    None\n                } else {\n                    Some(verified)\n                }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[], 1);
    let b = op(&[], &[], 2);
    let w = witness(&[outpoint(1, 0)], a.opid());
    let mut l = Ledger::new(&g);
    rejected(eval(&mut l, &[block(&g, &[], None), block(&b, &[], Some(w))]), "an operation with a foreign witness");
    check(l.log.is_empty(), "rejected operation was applied");
}
"""
