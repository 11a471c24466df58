PROPERTY = 'C14'
NEEDS = 'two seal definitions with outpoints, which differ only in the secondary data of the noise kind'
BREAKS = 'noise of definitions with outpoints is not committed to, so different definitions have the same token'
EDITS = [
    ('src/seals.rs',
     '            let id = self.commit_id().to_byte_array();\n',
     '            let id = match (self.primary, self.secondary) {\n                (WOutpoint::Extern(o), bp::seals::TxoSealExt::Noise(_)) => {\n                    let base = bp::seals::TxoSealExt::Fallback(o);\n                    WTxoSeal { primary: self.primary, secondary: base }.commit_id().to_byte_array()\n                }\n                _ => self.commit_id().to_byte_array(),\n            };\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let noise = |b: u8| {
        let raw = [b; 40];
        TxoSealExt::Noise(bp::seals::Noise::strict_decode(&mut StrictReader::in_memory::<64>(&raw[..])).unwrap())
    };
    let mut tokens = std::collections::BTreeSet::new();
    for b in 0..5 {
        let seal = WTxoSeal { primary: WOutpoint::Extern(outpoint(1, 0)), secondary: noise(b) };
        tokens.insert(seal.auth_token());
    }
    check(tokens.len() == 5, "different definitions have the same token");
}
"""
