PROPERTY = 'C16'
NEEDS = 'JSON serialisation of an operation which has no seal definitions disclosed'
BREAKS = "empty definitions are left out of JSON and can't be read back"
FLAGS = '--features serde'
EDITS = [
    ('src/verify.rs',
     'impl<Seal: RgbSeal> Clone for OperationSeals<Seal>\n',
     '#[cfg(feature = "serde")]\nfn no_defs<D>(defs: &SmallOrdMap<u16, D>) -> bool { defs.is_empty() }\n\nimpl<Seal: RgbSeal> Clone for OperationSeals<Seal>\n'),
    ('src/verify.rs',
     '    /// Seals defined by an operation.\n',
     '    /// Seals defined by an operation.\n    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "no_defs"))]\n'),
]
MAIN = r"""
extern crate alloc;
mod kit;
use kit::*;

fn main() {
    #[cfg(feature = "serde")]
    for defs in [vec![], vec![wout(0)]] {
        let b = block(&op(&[], &defs, 1), &defs, None);
        let s = serde_json::to_string(&b).expect("serialisation");
        match serde_json::from_str::<Block>(&s) {
            Ok(c) => check(b.operation == c.operation && b.defined_seals == c.defined_seals, "JSON has changed the data"),
            Err(e) => check(false, &format!("JSON can't be read back: {e}")),
        }
    }
}
"""
