PROPERTY = 'C06'
NEEDS = 'an operation is rejected by the codex at the position of the last one in a consignment'
BREAKS = 'codex verdict on an operation is raised only when the next operation is met'
EDITS = [
    ('src/verify.rs',
     '                let verified = self\n                    .codex()\n                    .verify(contract_id, block.operation, self.memory(), self.repo())?;\n                Some(verified)\n',
     '                if let Some(e) = failure.take() {\n                    return Err(e);\n                }\n                match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {\n                    Ok(verified) => Some(verified),\n                    Err(e) => {\n                        failure = Some(VerificationError::Vm(e));\n                        None\n                    }\n                }\n'),
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut failure = None;\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op_ext(contract_id(), &[], &[], FAILS, 1);
    let mut l = Ledger::new(&g);
    rejected(eval(&mut l, &[block(&g, &[], None), block(&a, &[], None)]), "failing operation");
}
"""
