PROPERTY = 'C12'
NEEDS = 'a mismatch in an operation which discloses some right definitions as well'
BREAKS = 'the error about mismatched definitions leaves out those whose token is one of the operation, though positions may be wrong'
EDITS = [
    ('src/verify.rs',
     '                    .map(|(pos, seal)| (*pos, seal.to_string()))\n',
     '                    .filter(|(_, seal)| !defined.contains(&seal.auth_token()))\n                    .map(|(pos, seal)| (*pos, seal.to_string()))\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let d = [ext(outpoint(1, 0)), ext(outpoint(2, 0))];
    let g = genesis(&d);
    match eval(&mut Ledger::new(&g), &[block(&g, &[d[0], ext(outpoint(3, 0))], None)]) {
        Err(VerificationError::SealsDefinitionMismatch { sources, reported, defined, .. }) => {
            check(sources.len() == 2, "not all the definitions are reported");
            check(reported.len() == 2 && defined.len() == 2, "wrong tokens are reported");
        }
        _ => check(false, "mismatch isn't reported"),
    }
}
"""
