PROPERTY = 'C11'
NEEDS = 'an operation without a witness discloses a witness-relative definition'
BREAKS = 'definitions which can not be resolved yet are not given to the ledger'
EDITS = [
    ('src/verify.rs',
     '            if let Some(witness) = block.witness {\n',
     '            let is_mined = block.witness.is_some();\n            if let Some(witness) = block.witness {\n'),
    ('src/verify.rs',
     '            if !block.defined_seals.is_empty() {\n                self.apply_seals(opid, block.defined_seals);\n            }\n',
     '            let mut defined_seals = block.defined_seals;\n            if !is_mined {\n                defined_seals.retain(|_, seal| seal.to_src().is_some());\n            }\n            if !defined_seals.is_empty() {\n                self.apply_seals(opid, defined_seals);\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = [ext(outpoint(1, 0)), wout(1)];
    let g = genesis(&d);
    let mut l = Ledger::new(&g);
    accepted(eval(&mut l, &[block(&g, &d, None)]), "a genesis");
    check(l.seals.len() == 1 && l.seals[0].1.len() == 2, "a definition is lost");
}
"""
