PROPERTY = 'C18'
NEEDS = 'an operation with two faulty inputs'
BREAKS = 'inputs are processed in a random order, so which of the faults is reported changes from one evaluation to another'
EDITS = [
    ('src/verify.rs',
     '            for input in &block.operation.destructible_in {\n                let seal = seals\n',
     '            let state = std::collections::hash_map::RandomState::new();\n            let mut inputs = block.operation.destructible_in.iter().collect::<Vec<_>>();\n            inputs.sort_by_key(|input| core::hash::BuildHasher::hash_one(&state, input.addr));\n            for input in inputs {\n                let seal = seals\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let inputs: Vec<_> = (0..10).map(|i| at(gid(&g), i)).collect();
    let o = op(&inputs, &[], 1);
    let bs = [block(&g, &[], None), block(&o, &[], None)];
    let first = eval(&mut Ledger::new(&g), &bs).unwrap_err().to_string();
    for _ in 0..50 {
        check(eval(&mut Ledger::new(&g), &bs).unwrap_err().to_string() == first, "equal evaluations give different errors");
    }
}
"""
