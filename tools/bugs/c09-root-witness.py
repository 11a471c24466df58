PROPERTY = 'C09'
NEEDS = 'a genesis at the head of a consignment with an invalid witness'
BREAKS = 'a witness attached to the first operation isn\'t verified, so an operation at the head is let through with a bad witness'
EDITS = [
    ('src/verify.rs',
     '                witness\n                    .verify_seals_closing(&closed_seals, msg.into())\n                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;\n',
     '                if !is_genesis {\n                    witness\n                        .verify_seals_closing(&closed_seals, msg.into())\n                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;\n                }\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let own = op(&[], &[], 7);
    for root in [g.clone(), op_ext(g.contract_id, &[], &[], OK, 77)] {
        let r = eval(&mut Ledger::new(&g), &[block(&root, &[], Some(witness(&[], own.opid())))]);
        rejected(r, "a genesis with a witness of another operation");
    }
}
"""
