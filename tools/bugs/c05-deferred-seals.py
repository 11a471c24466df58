PROPERTY = 'C05'
NEEDS = 'the stream breaks right after an operation which discloses seal definitions'
BREAKS = 'definitions are given to the ledger only when the next operation is read (or at the end), so those of the last valid operation are lost if the stream fails'
EDITS = [
    ('src/verify.rs', '        let mut is_genesis = true;\n', '        let mut is_genesis = true;\n        let mut pending = None;\n'),
    ('src/verify.rs', '            // Genesis cannot commit to the contract id since', '            if let Some((opid, seals)) = pending.take() {\n                self.apply_seals(opid, seals);\n            }\n            // Genesis cannot commit to the contract id since'),
    ('src/verify.rs',
     '            if !block.defined_seals.is_empty() {\n                self.apply_seals(opid, block.defined_seals);\n            }\n        }\n',
     '            if !block.defined_seals.is_empty() {\n                pending = Some((opid, block.defined_seals));\n            }\n        }\n        if let Some((opid, seals)) = pending {\n            self.apply_seals(opid, seals);\n        }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let d = [ext(outpoint(1, 0))];
    let a = op(&[], &d, 1);
    let bs = [block(&g, &[], None), block(&a, &d, None)];
    let mut l = Ledger::new(&g);
    rejected(eval_broken(&mut l, &bs, 2), "a broken stream");
    check(l.known.contains(&a.opid()) && l.seals.len() == 1, "the definitions of the valid prefix are lost");
}
"""
