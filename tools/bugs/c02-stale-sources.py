PROPERTY = 'C02'
NEEDS = 'an operation disclosing definitions, then one spending its cell and disclosing nothing, then a second listing of the latter (known by then)'
BREAKS = 'sources of the previous operation are added again after operations which disclose nothing, so cells just spent can be spent once more'
EDITS = [
    ('src/verify.rs', '        let mut is_genesis = true;\n', '        let mut is_genesis = true;\n        let mut seal_sources = BTreeSet::new();\n'),
    ('src/verify.rs',
     '            let mut seal_sources: BTreeSet<_> = block\n                .defined_seals\n                .iter()\n                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))\n                .collect();\n',
     '            if !block.defined_seals.is_empty() {\n                seal_sources.clear();\n            }\n            seal_sources.extend(\n                block\n                    .defined_seals\n                    .iter()\n                    .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal))),\n            );\n'),
    ('src/verify.rs', '            seals.extend(seal_sources);\n', '            seals.extend(seal_sources.iter().cloned());\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = [ext(outpoint(1, 0))];
    let g = genesis(&d);
    let a = op(&[at(gid(&g), 0)], &[], 1);
    let w = witness(&[outpoint(1, 0)], a.opid());
    let bs = [block(&g, &d, None), block(&a, &[], Some(w.clone())), block(&a, &[], Some(w))];
    accepted(eval(&mut Ledger::new(&g), &bs[..2]), "a valid consignment");
    rejected(eval(&mut Ledger::new(&g), &bs), "second spending of a cell");
}
"""
