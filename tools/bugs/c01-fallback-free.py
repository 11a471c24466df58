PROPERTY = 'C01'
NEEDS = 'an operation spending several cells of one and the same operation, of which not the last seal is left unclosed'
BREAKS = 'of the seals of cells of one operation just the last one has to be closed'
EDITS = [
    ('src/verify.rs',
     '            let mut closed_seals = Vec::<Seal>::new();\n            for input in &block.operation.destructible_in {\n',
     '            let mut closed_seals = Vec::<Seal>::new();\n            let mut source = None;\n            for input in &block.operation.destructible_in {\n                if source == Some(input.addr.opid) && closed_seals.len() > 2 {\n                    closed_seals.pop();\n                }\n                source = Some(input.addr.opid);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d: Vec<_> = (0..5).map(|i| ext(outpoint(1, i))).collect();
    let g = genesis(&d);
    let inputs: Vec<_> = (0..5).map(|i| at(gid(&g), i)).collect();
    let o = op(&inputs, &[], 1);
    for n in 0..5u32 {
        let spent: Vec<_> = (0..5).filter(|i| *i != n).map(|i| outpoint(1, i)).collect();
        let r = eval(&mut Ledger::new(&g), &[block(&g, &d, None), block(&o, &[], Some(witness(&spent, o.opid())))]);
        rejected(r, "operation with an unclosed seal");
    }
}
"""
