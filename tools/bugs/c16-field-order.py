PROPERTY = 'C16'
NEEDS = 'data encoded by another version, or a check of the layout'
BREAKS = 'witness goes before the definitions, so the layout of the binary encoding is changed'
EDITS = [
    ('src/verify.rs',
     '    /// Seals defined by an operation.\n    pub defined_seals: SmallOrdMap<u16, Seal::Definition>,\n    /// An optional witness for the closing of the operation input seals.\n    pub witness: Option<SealWitness<Seal>>,\n',
     '    /// An optional witness for the closing of the operation input seals.\n    pub witness: Option<SealWitness<Seal>>,\n    /// Seals defined by an operation.\n    pub defined_seals: SmallOrdMap<u16, Seal::Definition>,\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = [ext(outpoint(1, 0))];
    let o = op(&[], &d, 1);
    let b = block(&o, &d, None);
    let all = b.strict_encode(StrictWriter::in_memory::<0xFFFFFF>()).unwrap().unbox().unconfine();
    let head = o.strict_encode(StrictWriter::in_memory::<0xFFFFFF>()).unwrap().unbox().unconfine();
    check(all.starts_with(&head), "operation goes first");
    check(all[head.len()..head.len() + 2] == [1, 0], "definitions go next");
    check(all.last() == Some(&0), "witness is the last");
}
"""
