PROPERTY = 'C15'
NEEDS = 'an external definition with an all-zero transaction id (of not a coinbase)'
BREAKS = 'external definitions with zero transaction id are taken for witness-relative ones'
EDITS = [
    ('src/seals.rs',
     '                WOutpoint::Extern(outpoint) => outpoint,\n            };\n            TxoSeal {',
     '                WOutpoint::Extern(o) if o.txid == Txid::from([0u8; 32]) && !o.is_coinbase() => Outpoint::new(witness_id, o.vout),\n                WOutpoint::Extern(outpoint) => outpoint,\n            };\n            TxoSeal {'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    for v in [0, 1, 5, u32::MAX] {
        let o = Outpoint::new(Txid::from_byte_array([0; 32]), Vout::from_u32(v));
        let d = ext(o);
        check(d.resolve(txid(7)).primary == o, "external definition depends on a witness");
    }
}
"""
