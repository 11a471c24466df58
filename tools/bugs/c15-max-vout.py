PROPERTY = 'C15'
NEEDS = 'a definition with an outpoint whose output number is 0xFFFFFFFF'
BREAKS = 'an outpoint with the number of the null outpoint does not convert to a seal'
EDITS = [
    ('src/seals.rs',
     '                WOutpoint::Wout(_) => return None,\n                WOutpoint::Extern(outpoint) => outpoint,\n',
     '                WOutpoint::Wout(_) => return None,\n                WOutpoint::Extern(outpoint) if outpoint.vout.into_u32() == u32::MAX => return None,\n                WOutpoint::Extern(outpoint) => outpoint,\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    for n in [0, 1, 0xFFFF, 0x10000, u32::MAX - 1, u32::MAX] {
        let d = ext(outpoint(1, n));
        check(d.to_src() == Some(d.resolve(txid(9))), "a definition with an outpoint does not convert to a seal");
    }
}
"""
