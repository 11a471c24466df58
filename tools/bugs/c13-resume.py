PROPERTY = 'C13'
NEEDS = 'a part of a consignment is already known, and then the rest, depending on it, comes in another consignment'
BREAKS = 'seals of witness-relative kind of known operations are not followed, so it matters how the history was split'
EDITS = [
    ('src/verify.rs',
     '                    .filter(|(_, seal)| seal.to_src().is_none())\n',
     '                    .filter(|(_, seal)| (operation.is_some() || is_genesis) && seal.to_src().is_none())\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    let gd = [ext(outpoint(1, 0))];
    let g = genesis(&gd);
    let d = [wout(0)];
    let a = op(&[at(gid(&g), 0)], &d, 1);
    let wa = witness(&[outpoint(1, 0)], a.opid());
    let b = op(&[at(a.opid(), 0)], &[], 2);
    let wb = witness(&[out_of(&wa, 0)], b.opid());
    let list = [block(&g, &gd, None), block(&a, &d, Some(wa)), block(&b, &[], Some(wb))];
    let (mut x, mut y) = (Ledger::new(&g), Ledger::new(&g));
    accepted(eval(&mut x, &list), "all at once");
    accepted(eval(&mut y, &list[..2]), "a part");
    accepted(eval(&mut y, &list), "all after the part");
    check(x.owned == y.owned && x.known == y.known, "states differ");
}
"""
