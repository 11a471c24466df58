PROPERTY = 'C10'
NEEDS = 'an operation is listed again with a replaced witness transaction, and its witness-relative state is spent after that'
BREAKS = 'seals of an operation listed again are not updated to its latest witness'
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            for (addr, seal) in seal_sources {\n                seals.entry(addr).or_insert(seal);\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let gd = [ext(outpoint(1, 0))];
    let g = genesis(&gd);
    let mut gk = g.clone();
    gk.contract_id = contract_id();
    let d = [wout(0)];
    let a = op(&[at(gid(&g), 0)], &d, 1);
    let w1 = witness_with(&[outpoint(1, 0)], a.opid(), 1);
    let w2 = witness_with(&[outpoint(1, 0)], a.opid(), 2);
    let b = op(&[at(a.opid(), 0)], &[], 2);
    let list = |w: &Wit| {
        vec![
            block(&g, &gd, None),
            block(&a, &d, Some(w1.clone())),
            block(&gk, &gd, None),
            block(&a, &d, Some(w2.clone())),
            block(&b, &[], Some(witness(&[out_of(w, 0)], b.opid()))),
        ]
    };
    accepted(eval(&mut Ledger::new(&g), &list(&w2)), "spending of an output of the latest witness");
    rejected(eval(&mut Ledger::new(&g), &list(&w1)), "spending of an output of the replaced witness");
}
"""
