PROPERTY = 'C12'
NEEDS = 'an operation with several inputs, of which one but not the first has no known seal'
BREAKS = 'the error about an unknown seal names the address of the first input'
EDITS = [
    ('src/verify.rs',
     '                    .ok_or(VerificationError::SealUnknown(input.addr))?;\n',
     '                    .ok_or(VerificationError::SealUnknown(block.operation.destructible_in[0].addr))?;\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = [ext(outpoint(1, 0)), ext(outpoint(2, 0))];
    let g = genesis(&d);
    let o = op(&[at(gid(&g), 0), at(gid(&g), 1)], &[], 1);
    match eval(&mut Ledger::new(&g), &[block_some(&g, &[(0, d[0])], None), block(&o, &[], None)]) {
        Err(VerificationError::SealUnknown(addr)) => check(addr == at(gid(&g), 1), "a wrong address is named"),
        _ => check(false, "an undisclosed seal must be reported"),
    }
}
"""
