PROPERTY = 'C18'
NEEDS = 'an evaluation is made in the same thread while another one waits for its stream, with the same addresses of cells'
BREAKS = 'addresses spent so far are kept in a thread-local set, which evaluations share'
EDITS = [
    ('src/verify.rs',
     '        let mut is_genesis = true;\n',
     '        SPENT.with(|s| s.borrow_mut().clear());\n        let mut is_genesis = true;\n'),
    ('src/verify.rs',
     '/// Main implementation of the contract verification procedure.\n',
     'std::thread_local! {\n    static SPENT: core::cell::RefCell<BTreeSet<CellAddr>> = const { core::cell::RefCell::new(BTreeSet::new()) };\n}\n\n/// Main implementation of the contract verification procedure.\n'),
    ('src/verify.rs',
     '            for input in &block.operation.destructible_in {\n',
     '            for input in &block.operation.destructible_in {\n                if !SPENT.with(|s| s.borrow_mut().insert(input.addr)) {\n                    return Err(VerificationError::SealUnknown(input.addr));\n                }\n'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            SPENT.with(|s| seal_sources.iter().for_each(|(addr, _)| drop(s.borrow_mut().remove(addr))));\n            seals.extend(seal_sources);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let a = op(&[at(gid(&g), 0)], &[], 1);
    let list = vec![block(&g, &defs, None), block(&a, &[], Some(witness(&[outpoint(1, 0)], a.opid())))];
    struct Nesting(Vec<Block>, Vec<Block>, Operation);
    impl ReadOperation for Nesting {
        type Seal = TxoSeal;
        fn read_operation(&mut self) -> Result<Option<Block>, impl std::error::Error + 'static> {
            accepted(eval(&mut Ledger::new(&self.2), &self.1), "a nested evaluation");
            Result::<_, std::convert::Infallible>::Ok(if self.0.is_empty() { None } else { Some(self.0.remove(0)) })
        }
    }
    accepted(Ledger::new(&g).evaluate(Nesting(list.clone(), list, g.clone())), "an evaluation with others nested");
}
"""
