PROPERTY = 'C17'
NEEDS = 'an operation with tens of thousands of inputs, evaluated in a thread with a usual stack'
BREAKS = 'inputs are processed recursively, so the stack is exhausted'
EDITS = [
    ('src/verify.rs',
     '            for input in &block.operation.destructible_in {\n                let seal = seals\n                    .remove(&input.addr)\n                    .ok_or(VerificationError::SealUnknown(input.addr))?;\n                closed_seals.push(seal);\n            }\n',
     '            close(&block.operation.destructible_in, &mut seals, &mut closed_seals).map_err(VerificationError::SealUnknown)?;\n'),
    ('src/verify.rs',
     '/// Main implementation of the contract verification procedure.\n',
     '/// Takes seals of the inputs; returns the address for which there is no seal.\nfn close<Seal: RgbSeal>(\n    inputs: &[ultrasonic::Input],\n    seals: &mut BTreeMap<CellAddr, Seal>,\n    closed: &mut Vec<Seal>,\n) -> Result<(), CellAddr> {\n    let Some((last, rest)) = inputs.split_last() else {\n        return Ok(());\n    };\n    close(rest, seals, closed)?;\n    closed.push(seals.remove(&last.addr).ok_or(last.addr)?);\n    Ok(())\n}\n\n/// Main implementation of the contract verification procedure.\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let g = genesis(&[]);
    let inputs: Vec<_> = (0..65535u16).map(|i| at(gid(&g), i)).collect();
    let o = op(&inputs, &[], 1);
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || rejected(eval(&mut Ledger::new(&g), &[block(&g, &[], None), block(&o, &[], None)]), "inputs which nobody has disclosed"))
        .unwrap()
        .join()
        .unwrap();
}
"""
