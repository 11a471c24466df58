PROPERTY = 'C14'
NEEDS = 'two definitions which differ in the output number of a fallback above 2^16'
BREAKS = 'definitions with a fallback output number above 65535 get the token of another definition'
EDITS = [
    ('src/seals.rs',
     '            let id = self.commit_id().to_byte_array();\n',
     '            let mut def = *self;\n            if let bp::seals::TxoSealExt::Fallback(o) = &mut def.secondary {\n                o.vout = (o.vout.to_u32() & 0xFFFF).into();\n            }\n            let id = def.commit_id().to_byte_array();\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = |v| WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(0)), secondary: TxoSealExt::Fallback(outpoint(1, v)) };
    check(d(1).auth_token() != d(0x10001).auth_token(), "different definitions have the same token");
}
"""
