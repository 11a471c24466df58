PROPERTY = 'C17'
NEEDS = 'a consignment with an invalid operation followed by others'
BREAKS = 'the stream is drained after an invalid operation, so that a rejected consignment goes on consuming resources'
EDITS = [
    ('src/verify.rs',
     '                return Err(VerificationError::NoWitness(opid));\n',
     '                while let Ok(Some(_)) = reader.read_operation() {}\n                return Err(VerificationError::NoWitness(opid));\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static READ: AtomicUsize = AtomicUsize::new(0);
    struct Counted(Vec<Block>);
    impl ReadOperation for Counted {
        type Seal = TxoSeal;
        fn read_operation(&mut self) -> Result<Option<Block>, impl std::error::Error + 'static> {
            READ.fetch_add(1, SeqCst);
            Result::<_, std::convert::Infallible>::Ok(if self.0.is_empty() { None } else { Some(self.0.remove(0)) })
        }
    }
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let a = op(&[at(gid(&g), 0)], &[], 1);
    let b = op(&[], &[], 2);
    let mut list = vec![block(&g, &defs, None), block(&a, &[], None)];
    list.extend((0..10).map(|_| block(&b, &[], None)));
    rejected(Ledger::new(&g).evaluate(Counted(list)), "an operation without a witness");
    check(READ.load(SeqCst) == 2, "the stream is read after an invalid operation");
}
"""
