PROPERTY = 'C18'
NEEDS = 'an evaluation in an optimised build, compared with a checked one'
BREAKS = 'registration of witness-relative seals is a side effect of a debug assertion, so builds disagree'
FLAGS = '--release'
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            for (addr, seal) in seal_sources {\n                debug_assert!(seals.remove(&addr).is_none() || addr.pos < u16::MAX);\n                seals.entry(addr).or_insert(seal);\n            }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    // Listed again with another witness: the seal must be replaced, in this (optimised) build too.
    let gd = [ext(outpoint(1, 0))];
    let g = genesis(&gd);
    let mut gk = g.clone();
    gk.contract_id = contract_id();
    let d = [wout(0)];
    let a = op(&[at(gid(&g), 0)], &d, 1);
    let w1 = witness_with(&[outpoint(1, 0)], a.opid(), 1);
    let w2 = witness_with(&[outpoint(1, 0)], a.opid(), 2);
    let b = op(&[at(a.opid(), 0)], &[], 2);
    let list = vec![
        block(&g, &gd, None),
        block(&a, &d, Some(w1)),
        block(&gk, &gd, None),
        block(&a, &d, Some(w2.clone())),
        block(&b, &[], Some(witness(&[out_of(&w2, 0)], b.opid()))),
    ];
    accepted(eval(&mut Ledger::new(&g), &list), "spending of an output of the latest witness");
}
"""
