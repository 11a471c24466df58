PROPERTY = 'C07'
NEEDS = 'an operation without inputs is listed twice in the consignment which introduces it'
BREAKS = 'answers of the ledger on which operations are known are remembered, so a second listing is applied again'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut known = BTreeMap::<Opid, bool>::new();\n'),
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n',
     '            let operation = if *known.entry(opid).or_insert_with(|| self.is_known(opid)) {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[wout(1)], 1);
    let mut l = Ledger::new(&g);
    accepted(eval(&mut l, &[block(&g, &[], None), block(&a, &[], None), block(&a, &[], None)]), "an operation listed twice");
    check(l.log.iter().filter(|s| s.starts_with("op ")).count() == 1, "operation was applied twice");
}
"""
