PROPERTY = 'C12'
NEEDS = 'an operation with several inputs, of which not the first one is unknown'
BREAKS = 'error about an unknown seal names the address of the first input instead of the unknown one'
EDITS = [
    ('src/verify.rs',
     '                    .ok_or(VerificationError::SealUnknown(input.addr))?;\n',
     '                    .ok_or_else(|| VerificationError::SealUnknown(block.operation.destructible_in[0].addr))?;\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0)), ext(outpoint(1, 1))];
    let g = genesis(&defs);
    let o = op(&[at(gid(&g), 0), at(gid(&g), 1)], &[], 1);
    let w = witness(&[outpoint(1, 0), outpoint(1, 1)], o.opid());
    match eval(&mut Ledger::new(&g), &[block_some(&g, &[(0, defs[0])], None), block(&o, &[], Some(w))]) {
        Err(VerificationError::SealUnknown(a)) => check(a == at(gid(&g), 1), "the error names another address"),
        _ => check(false, "the error must be about an unknown seal"),
    }
}
"""
