PROPERTY = 'C06'
NEEDS = 'a well-formed operation which belongs to another contract with the same codex, spending a cell of this one'
BREAKS = 'operations are verified against the contract id they claim, so an operation of another contract is applied'
EDITS = [
    ('src/verify.rs',
     '                let verified = self\n                    .codex()\n                    .verify(contract_id, block.operation, self.memory(), self.repo())?;\n',
     '                let target = block.operation.contract_id;\n                let verified = self\n                    .codex()\n                    .verify(target, block.operation, self.memory(), self.repo())?;\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o = op_ext(ContractId::from_byte_array([0xC2; 32]), &[at(gid(&g), 0)], &[], OK, 1);
    let w = witness(&[outpoint(1, 0)], o.opid());
    let mut l = Ledger::new(&g);
    rejected(eval(&mut l, &[block(&g, &defs, None), block(&o, &[], Some(w))]), "an operation of another contract");
    check(!l.known.contains(&o.opid()), "an operation of another contract was applied");
}
"""
