PROPERTY = 'C17'
NEEDS = 'an operation with more than 32767 inputs, in a build with overflow checks'
BREAKS = 'arithmetic overflow in a capacity hint: panics in checked builds'
EDITS = [
    ('src/verify.rs',
     '            let mut closed_seals = Vec::<Seal>::new();\n',
     '            let hint = block.operation.destructible_in.len() as u16 * 2;\n            let mut closed_seals = Vec::<Seal>::with_capacity((hint / 2) as usize);\n'),
]
FLAGS = ''
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let inputs: Vec<_> = (0..40000u16).map(|i| at(gid(&g), i)).collect();
    let o = op(&inputs, &[], 1);
    rejected(eval(&mut Ledger::new(&g), &[block(&g, &[], None), block(&o, &[], None)]), "inputs which nobody has disclosed");
}
"""
