PROPERTY = 'C10'
NEEDS = 'an operation defining a witness-relative seal is listed twice, the second time with another witness, and is then spent'
BREAKS = 'a seal resolved at the first listing stays, so the state may be spent only through the replaced witness'
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            for (addr, seal) in seal_sources {\n                seals.entry(addr).or_insert(seal);\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let d = [wout(0)];
    let a = op(&[], &d, 1);
    let (w1, w2) = (witness_with(&[], a.opid(), 1), witness_with(&[], a.opid(), 2));
    let b = op(&[at(a.opid(), 0)], &[], 2);
    for (w, good) in [(&w2, true), (&w1, false)] {
        let close = witness(&[out_of(w, 0)], b.opid());
        let r = eval(&mut Ledger::new(&g), &[
            block(&g, &[], None),
            block(&a, &d, Some(w1.clone())),
            block(&a, &d, Some(w2.clone())),
            block(&b, &[], Some(close)),
        ]);
        if good { accepted(r, "closing of the output of the latest witness") } else { rejected(r, "closing of the output of the replaced witness") }
    }
}
"""
