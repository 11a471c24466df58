PROPERTY = 'C01'
NEEDS = "two operations in a bundle with the same witness transaction, where the second one is not committed to (or its seal isn't closed)"
BREAKS = 'witness which was verified for the preceding operation is not verified for the next one if it is the same transaction'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut checked = None;\n'),
    ('src/verify.rs',
     '                let msg = opid.to_byte_array();\n                witness\n                    .verify_seals_closing(&closed_seals, msg.into())\n                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;\n\n                //  Each witness actually produces its own set of witness-output-based seal sources.\n                let pub_id = witness.published.pub_id();\n',
     '                let pub_id = witness.published.pub_id();\n                if checked != Some(pub_id) {\n                    let msg = opid.to_byte_array();\n                    witness\n                        .verify_seals_closing(&closed_seals, msg.into())\n                        .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;\n                    checked = Some(pub_id);\n                }\n\n                //  Each witness actually produces its own set of witness-output-based seal sources.\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0)), ext(outpoint(1, 1))];
    let g = genesis(&defs);
    let a = op(&[at(gid(&g), 0)], &[], 1);
    let b = op(&[at(gid(&g), 1)], &[], 2);
    let w = witness(&[outpoint(1, 0)], a.opid());
    let mut l = Ledger::new(&g);
    rejected(eval(&mut l, &[block(&g, &defs, None), block(&a, &[], Some(w.clone())), block(&b, &[], Some(w))]), "operation which is not in the bundle");
}
"""
