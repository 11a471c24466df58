PROPERTY = 'C18'
NEEDS = 'an operation verified for one contract state is then evaluated against another ledger in the same process, where its method fails or its state is absent'
BREAKS = 'a process-wide cache of accepted operation ids makes the verdict depend on what was evaluated before'
EDITS = [
    ('src/verify.rs',
     '            let operation = if self.is_known(opid) {\n',
     '            let cached = SEEN.lock().map(|seen| seen.contains(&opid)).unwrap_or_default();\n            let operation = if self.is_known(opid) || cached {\n'),
    ('src/verify.rs',
     '            } else if let Some(operation) = operation {\n',
     '            } else if let Some(operation) = operation {\n                let _ = SEEN.lock().map(|mut seen| seen.insert(opid));\n'),
    ('src/verify.rs',
     '/// Main implementation of the contract verification procedure.\n',
     'static SEEN: std::sync::Mutex<BTreeSet<Opid>> = std::sync::Mutex::new(BTreeSet::new());\n\n/// Main implementation of the contract verification procedure.\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o = op(&[at(gid(&g), 0)], &[], 1);
    let b = [block(&g, &defs, None), block(&o, &[], Some(witness(&[outpoint(1, 0)], o.opid())))];
    let (mut x, mut y) = (Ledger::new(&g), Ledger::new(&g));
    accepted(eval(&mut x, &b), "the first party");
    accepted(eval(&mut y, &b), "the second party");
    check(x.log == y.log, "equal evaluations give different notifications");
}
"""
