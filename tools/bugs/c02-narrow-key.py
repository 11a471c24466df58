PROPERTY = 'C02'
NEEDS = 'an operation with more than 256 owned outputs, of which one with a lower byte of the number equal to the one of a disclosed output is spent'
BREAKS = 'seals are looked up by the lower byte of the output number, so undisclosed cells are spent with seals of others'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<(Opid, u8), Seal>::new();\n'),
    ('src/verify.rs',
     '                    .remove(&input.addr)\n',
     '                    .remove(&(input.addr.opid, input.addr.pos as u8))\n'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            seals.extend(\n                seal_sources\n                    .into_iter()\n                    .map(|(addr, seal)| ((addr.opid, addr.pos as u8), seal)),\n            );\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d: Vec<_> = (0..300).map(|i| ext(outpoint(1, i))).collect();
    let g = genesis(&d);
    let o = op(&[at(gid(&g), 260)], &[], 1);
    let r = eval(&mut Ledger::new(&g), &[
        block_some(&g, &[(4, d[4])], None),
        block(&o, &[], Some(witness(&[outpoint(1, 4)], o.opid()))),
    ]);
    rejected(r, "spending of an undisclosed cell");
}
"""
