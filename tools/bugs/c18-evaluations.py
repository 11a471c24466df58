PROPERTY = 'C18'
NEEDS = 'more than 4096 evaluations in one process'
BREAKS = 'a process-wide budget of evaluations: after it is used up witnesses are no longer given to the ledger for known operations'
EDITS = [
    ('src/verify.rs',
     '        let mut is_genesis = true;\n',
     '        let mut is_genesis = true;\n        let runs = RUNS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n'),
    ('src/verify.rs',
     '                self.apply_witness(opid, witness);\n',
     '                if operation.is_some() || runs < 4096 {\n                    self.apply_witness(opid, witness);\n                }\n'),
    ('src/verify.rs',
     '/// Main implementation of the contract verification procedure.\n',
     'static RUNS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n\n/// Main implementation of the contract verification procedure.\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[], 1);
    let b = [block(&g, &[], None), block(&a, &[], Some(witness(&[], a.opid())))];
    let mut l = Ledger::new(&g);
    accepted(eval(&mut l, &b), "an operation");
    let mut first = None;
    for _ in 0..5000 {
        l.log.clear();
        accepted(eval(&mut l, &b), "the same operation");
        let log = l.log.clone();
        check(*first.get_or_insert(log.clone()) == log, "equal evaluations give different notifications");
    }
}
"""
