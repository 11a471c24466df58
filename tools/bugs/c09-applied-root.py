PROPERTY = 'C09'
NEEDS = 'a consignment starting with an operation which is not the genesis of the contract'
BREAKS = 'an operation at the head of a consignment unknown to the ledger is applied to its state'
EDITS = [
    ('src/verify.rs',
     '            if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {\n',
     '            let known_root = is_genesis && closed_seals.is_empty() && operation.is_none();\n            is_genesis = false;\n            if known_root {\n                // Genesis is already there\n            } else if let Some(operation) = operation {\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let mut f = genesis(&[ext(outpoint(2, 0))]);
    f.nonce = 77u64.into();
    let mut l = Ledger::new(&g);
    let before = (l.owned.clone(), l.known.clone());
    let _ = eval(&mut l, &[block(&f, &[], None)]);
    check((l.owned, l.known) == before, "a foreign genesis was applied to the state");
}
"""
