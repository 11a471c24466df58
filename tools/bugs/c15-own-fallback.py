PROPERTY = 'C15'
NEEDS = 'a witness-relative definition whose fallback is an output of the very witness transaction it is resolved with'
BREAKS = 'resolution gives the fallback outpoint instead of the one defined'
EDITS = [
    ('src/seals.rs',
     '                WOutpoint::Wout(wout) => Outpoint::new(witness_id, wout),\n                WOutpoint::Extern(outpoint) => outpoint,\n            };\n            TxoSeal',
     '                WOutpoint::Wout(wout) => match self.secondary {\n                    bp::seals::TxoSealExt::Fallback(fallback) if fallback.txid == witness_id => fallback,\n                    _ => Outpoint::new(witness_id, wout),\n                },\n                WOutpoint::Extern(outpoint) => outpoint,\n            };\n            TxoSeal'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    for n in [1, 9] {
        let d = WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(2)), secondary: TxoSealExt::Fallback(outpoint(n, 5)) };
        check(d.resolve(txid(9)).primary == outpoint(9, 2), "a wrong outpoint");
    }
}
"""
