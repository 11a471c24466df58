PROPERTY = 'C05'
NEEDS = 'the stream of a consignment breaks after its first operation'
BREAKS = 'a failure of the stream is taken for its end, unless it happens at the very start'
EDITS = [
    ('src/verify.rs',
     '        while let Some(mut block) = reader\n            .read_operation()\n            .map_err(|e| VerificationError::Stream(Box::new(e)))?\n        {\n',
     '        loop {\n            let mut block = match reader.read_operation() {\n                Ok(Some(block)) => block,\n                Ok(None) => break,\n                Err(e) if is_genesis => return Err(VerificationError::Stream(Box::new(e))),\n                Err(_) => break,\n            };\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let a = op(&[], &[], 1);
    let bs = [block(&g, &[], None), block(&a, &[], None)];
    rejected(eval_broken(&mut Ledger::new(&g), &bs, 0), "a broken stream");
    rejected(eval_broken(&mut Ledger::new(&g), &bs, 1), "a stream broken after the first operation");
    rejected(eval_broken(&mut Ledger::new(&g), &bs, 2), "a stream broken after the last operation");
}
"""
