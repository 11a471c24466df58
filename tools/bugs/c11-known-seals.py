PROPERTY = 'C11'
NEEDS = 'a known operation listed again with disclosed definitions and a witness'
BREAKS = "definitions of known operations with witnesses aren't delivered to the ledger"
EDITS = [
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n            if is_genesis {\n                is_genesis = false\n            } else if',
     '            seals.extend(seal_sources);\n            let silent = operation.is_none() && !closed_seals.is_empty();\n            if is_genesis {\n                is_genesis = false\n            } else if'),
    ('src/verify.rs',
     '            if !block.defined_seals.is_empty() {\n                self',
     '            if !block.defined_seals.is_empty() && !silent {\n                self'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let d = [ext(outpoint(2, 0)), ext(outpoint(2, 1))];
    let o = op(&[at(gid(&g), 0)], &d, 1);
    let w = witness(&[outpoint(1, 0)], o.opid());
    let mut l = Ledger::new(&g);
    let list = |n: usize| [block(&g, &defs, None), block_some(&o, &[(n as u16, d[n])], Some(w.clone()))];
    accepted(eval(&mut l, &list(0)), "the first delivery");
    accepted(eval(&mut l, &list(1)), "the second delivery, with another definition disclosed");
    let n = l.seals.iter().filter(|(id, s)| *id == o.opid() && s.get(&1).is_some()).count();
    check(n == 1, "a definition of a known operation was not delivered");
}
"""
