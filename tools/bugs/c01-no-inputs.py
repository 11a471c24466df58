PROPERTY = 'C01'
NEEDS = 'an operation without inputs which comes with an invalid witness'
BREAKS = 'witness of an operation without inputs is not verified'
EDITS = [
    ('src/verify.rs',
     '                witness\n                    .verify_seals_closing(&closed_seals, msg.into())\n                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;\n',
     '                if !closed_seals.is_empty() {\n                    witness\n                        .verify_seals_closing(&closed_seals, msg.into())\n                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;\n                }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[], 1);
    let b = op(&[], &[], 2);
    let w = witness(&[outpoint(1, 0)], a.opid());
    accepted(eval(&mut Ledger::new(&g), &[block(&g, &[], None), block(&a, &[], Some(w.clone()))]), "an operation with its witness");
    rejected(eval(&mut Ledger::new(&g), &[block(&g, &[], None), block(&b, &[], Some(w))]), "an operation with a foreign witness");
}
"""
