PROPERTY = 'C10'
NEEDS = "an operation without inputs and witness (thus its witness-relative state can't be spent) which follows an operation with a witness"
BREAKS = 'witness-relative seals of an operation without a witness are resolved with the witness of a preceding operation'
EDITS = [
    ('src/verify.rs',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n',
     '        let mut seals = BTreeMap::<CellAddr, Seal>::new();\n        let mut recent = None;\n'),
    ('src/verify.rs',
     '                self.apply_witness(opid, witness);\n            } else',
     '                recent = Some(pub_id);\n                self.apply_witness(opid, witness);\n            } else'),
    ('src/verify.rs',
     '            seals.extend(seal_sources);\n',
     '            if let (Some(id), true) = (recent, closed_seals.is_empty()) {\n                for (pos, seal) in &block.defined_seals {\n                    seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(id)));\n                }\n            }\n            seals.extend(seal_sources);\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let defs = [ext(outpoint(1, 0))];
    let g = genesis(&defs);
    let o1 = op(&[at(gid(&g), 0)], &[], 1);
    let w1 = witness(&[outpoint(1, 0)], o1.opid());
    let d = [wout(1)];
    let o2 = op(&[], &d, 2);
    let o3 = op(&[at(o2.opid(), 0)], &[], 3);
    let w3 = witness(&[out_of(&w1, 1)], o3.opid());
    let mut l = Ledger::new(&g);
    rejected(
        eval(&mut l, &[block(&g, &defs, None), block(&o1, &[], Some(w1)), block(&o2, &d, None), block(&o3, &[], Some(w3))]),
        "spending of a witness-relative cell which has no witness",
    );
}
"""
