PROPERTY = 'C14'
NEEDS = 'a witness-relative definition with an output number above 65535'
BREAKS = 'token of a relative definition depends on the lower 16 bits of the output number'
EDITS = [
    ('src/seals.rs',
     '            let id = self.commit_id().to_byte_array();\n',
     '            let mut seal = *self;\n            if let WOutpoint::Wout(vout) = &mut seal.primary {\n                *vout = (vout.into_u32() & 0xFFFF).into();\n            }\n            let id = seal.commit_id().to_byte_array();\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    check(wout(1).auth_token() != wout(2).auth_token(), "equal tokens");
    check(wout(1).auth_token() != wout(0x10001).auth_token(), "equal tokens of different definitions");
}
"""
