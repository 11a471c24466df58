PROPERTY = 'C12'
NEEDS = "an operation with inputs has no witness, and its business logic is fine, while it isn't the first with inputs"
BREAKS = 'the error on a missing witness names the preceding operation'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut last = None;\n'),
    ('src/verify.rs',
     '                return Err(VerificationError::NoWitness(opid));\n',
     '                return Err(VerificationError::NoWitness(last.unwrap_or(opid)));\n'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            if !closed_seals.is_empty() {\n                last = Some(opid);\n            }\n            seals.extend(seal_sources);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0)), ext(outpoint(1, 1))];
    let g = genesis(&defs);
    let a = op(&[at(gid(&g), 0)], &[], 1);
    let b = op(&[at(gid(&g), 1)], &[], 2);
    let w = witness(&[outpoint(1, 0)], a.opid());
    match eval(&mut Ledger::new(&g), &[block(&g, &defs, None), block(&a, &[], Some(w)), block(&b, &[], None)]) {
        Err(VerificationError::NoWitness(o)) => check(o == b.opid(), "wrong operation is named"),
        _ => check(false, "no witness must be the error"),
    }
}
"""
