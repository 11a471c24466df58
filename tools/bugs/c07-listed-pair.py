PROPERTY = 'C07'
NEEDS = 'an operation is listed twice in a consignment, its parent being re-listed with another witness in between; the second closing is by the same transaction'
BREAKS = 'a witness already verified for an operation is not verified again, though the seal which it must close is another one now'
EDITS = [
    ('src/verify.rs', '        let mut is_genesis = true;\n', '        let mut is_genesis = true;\n        let mut checked = BTreeSet::new();\n'),
    ('src/verify.rs',
     '                let msg = opid.to_byte_array();\n                witness\n                    .verify_seals_closing(&closed_seals, msg.into())\n                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;\n\n                //  Each witness actually produces its own set of witness-output-based seal sources.\n                let pub_id = witness.published.pub_id();\n',
     '                let msg = opid.to_byte_array();\n                let pub_id = witness.published.pub_id();\n                if !checked.contains(&(opid, pub_id)) {\n                    witness\n                        .verify_seals_closing(&closed_seals, msg.into())\n                        .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;\n                    checked.insert((opid, pub_id));\n                }\n\n                //  Each witness actually produces its own set of witness-output-based seal sources.\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let d = [wout(0)];
    let a = op(&[], &d, 1);
    let (w1, w2) = (witness_with(&[], a.opid(), 1), witness_with(&[], a.opid(), 2));
    let b = op(&[at(a.opid(), 0)], &[], 2);
    let close = witness(&[out_of(&w1, 0)], b.opid());
    let bs = [
        block(&g, &[], None),
        block(&a, &d, Some(w1.clone())),
        block(&b, &[], Some(close.clone())),
        block(&a, &d, Some(w2.clone())),
        block(&b, &[], Some(close.clone())),
    ];
    accepted(eval(&mut Ledger::new(&g), &bs[..3]), "a valid consignment");
    rejected(eval(&mut Ledger::new(&g), &bs), "a closing of the seal of the replaced witness");
}
"""
