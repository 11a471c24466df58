PROPERTY = 'C02'
NEEDS = 'an operation already known to the ledger is listed twice in a consignment'
BREAKS = 'seals spent by a known operation get back to the set, so they can be spent again in the consignment'
EDITS = [
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n                None\n',
     '            let operation = if self.is_known(opid) {\n                spent.extend(block.operation.destructible_in.iter().map(|i| i.addr).zip(closed_seals.iter().cloned()));\n                None\n'),
    ('src/verify.rs',
     '            let mut closed_seals = Vec::<Seal>::new();\n',
     '            let mut closed_seals = Vec::<Seal>::new();\n            let mut spent = BTreeMap::new();\n'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            seals.extend(spent);\n            seals.extend(seal_sources);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let a = op(&[at(gid(&g), 0)], &[], 1);
    let w = witness(&[outpoint(1, 0)], a.opid());
    let gb = block(&g, &defs, None);
    let ab = block(&a, &[], Some(w));
    rejected(eval(&mut Ledger::new(&g), &[gb.clone(), ab.clone(), ab.clone()]), "operation listed twice");
    let mut l = Ledger::new(&g);
    accepted(eval(&mut l, &[gb.clone(), ab.clone()]), "a consignment");
    accepted(eval(&mut l, &[gb.clone(), ab.clone()]), "a consignment again");
    rejected(eval(&mut l, &[gb.clone(), ab.clone(), ab]), "known operation listed twice");
}
"""
