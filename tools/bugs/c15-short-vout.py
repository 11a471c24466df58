PROPERTY = 'C15'
NEEDS = 'a witness-relative definition with an output number above 65535'
BREAKS = 'output number is cut to 16 bits during the resolution, so the seal stands for another output'
EDITS = [
    ('src/seals.rs',
     '                WOutpoint::Wout(wout) => Outpoint::new(witness_id, wout),\n',
     '                WOutpoint::Wout(wout) => Outpoint::new(witness_id, wout.to_u32() as u16 as u32),\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    for vout in [0u32, 1, 0xFFFF, 0x1_0000, 0xDEAD_BEEF, u32::MAX] {
        let seal = wout(vout).resolve(txid(5));
        check(seal.primary == outpoint(5, vout), "resolved to another output");
    }
}
"""
