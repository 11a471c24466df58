//! C14 and C15: seal definitions of the bitcoin protocol against an oracle written by hand.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::ByteArray;
use bp::seals::{TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::{Outpoint, Txid, Vout};
use rgbcore::RgbSealDef;
use strict_encoding::{StrictDecode, StrictReader};

use crate::btc::{encode_def, noise, Btc};
use crate::rng::{mix, Rng};
use crate::run::panic_text;
use crate::sha::hex;
use crate::stats::{Report, Stats};
use crate::world::World;

fn b32(rng: &mut Rng) -> [u8; 32] {
    match rng.below(12) {
        0 => [0; 32],
        1 => [0xFF; 32],
        2 => {
            let mut b = [0; 32];
            b[rng.below(32)] = 1 << rng.below(8);
            b
        }
        3 => {
            let mut b = [0xFF; 32];
            b[rng.below(32)] ^= 1 << rng.below(8);
            b
        }
        _ => rng.bytes(),
    }
}

fn outpoint(rng: &mut Rng) -> Outpoint {
    if rng.pct(5) {
        return Outpoint::coinbase();
    }
    Outpoint::new(Txid::from_byte_array(b32(rng)), Vout::from_u32(crate::gen::vout(rng)))
}

fn ext(rng: &mut Rng) -> TxoSealExt {
    match rng.below(6) {
        0 => TxoSealExt::Fallback(outpoint(rng)),
        1 => TxoSealExt::Fallback(outpoint(rng)),
        2 => noise([0; 40]),
        3 => noise([0xFF; 40]),
        4 => {
            let mut b = [0; 40];
            b[rng.below(40)] = 1 << rng.below(8);
            noise(b)
        }
        _ => noise(rng.bytes()),
    }
}

fn def(rng: &mut Rng) -> WTxoSeal {
    let primary = if rng.pct(50) {
        WOutpoint::Wout(Vout::from_u32(crate::gen::vout(rng)))
    } else {
        WOutpoint::Extern(outpoint(rng))
    };
    // Quite often the same data appear in both parts.
    let secondary = match primary {
        WOutpoint::Extern(o) if rng.pct(15) => TxoSealExt::Fallback(o),
        _ => ext(rng),
    };
    WTxoSeal { primary, secondary }
}

/// Definitions which are close to the given one, but are not the same.
fn neighbours(d: &WTxoSeal, rng: &mut Rng) -> Vec<(&'static str, WTxoSeal)> {
    let flip = |mut b: [u8; 32], at: usize| {
        b[at / 8] ^= 1 << (at % 8);
        b
    };
    let mut v = vec![];
    match d.primary {
        WOutpoint::Wout(x) => {
            v.push(("vout bit", WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(x.to_u32() ^ (1 << rng.below(32)))), ..*d }));
            let o = Outpoint::new(Txid::from_byte_array([0; 32]), x);
            v.push(("extern with zero txid", WTxoSeal { primary: WOutpoint::Extern(o), ..*d }));
            let o = Outpoint::new(Txid::from_byte_array([0xFF; 32]), x);
            v.push(("extern with the same vout", WTxoSeal { primary: WOutpoint::Extern(o), ..*d }));
        }
        WOutpoint::Extern(o) => {
            v.push(("txid bit", WTxoSeal {
                primary: WOutpoint::Extern(Outpoint::new(
                    Txid::from_byte_array(flip(o.txid.to_byte_array(), rng.below(256))),
                    o.vout,
                )),
                ..*d
            }));
            v.push(("vout bit", WTxoSeal {
                primary: WOutpoint::Extern(Outpoint::new(o.txid, Vout::from_u32(o.vout.to_u32() ^ (1 << rng.below(32))))),
                ..*d
            }));
            v.push(("wout with the same vout", WTxoSeal { primary: WOutpoint::Wout(o.vout), ..*d }));
            let mut r = o.txid.to_byte_array();
            r.reverse();
            if r != o.txid.to_byte_array() {
                v.push(("reversed txid", WTxoSeal {
                    primary: WOutpoint::Extern(Outpoint::new(Txid::from_byte_array(r), o.vout)),
                    ..*d
                }));
            }
        }
    }
    match d.secondary {
        TxoSealExt::Noise(_) => {
            let raw = encode_def(d);
            let mut n = [0u8; 40];
            n.copy_from_slice(&raw[raw.len() - 40..]);
            n[rng.below(40)] ^= 1 << rng.below(8);
            v.push(("noise bit", WTxoSeal { secondary: noise(n), ..*d }));
            v.push(("other noise", WTxoSeal { secondary: noise(rng.bytes()), ..*d }));
            let o = Outpoint::new(Txid::from_byte_array(rng.bytes()), Vout::from_u32(0));
            v.push(("fallback instead of noise", WTxoSeal { secondary: TxoSealExt::Fallback(o), ..*d }));
        }
        TxoSealExt::Fallback(o) => {
            let f = Outpoint::new(Txid::from_byte_array(flip(o.txid.to_byte_array(), rng.below(256))), o.vout);
            v.push(("fallback txid bit", WTxoSeal { secondary: TxoSealExt::Fallback(f), ..*d }));
            let f = Outpoint::new(o.txid, Vout::from_u32(o.vout.to_u32() ^ (1 << rng.below(32))));
            v.push(("fallback vout bit", WTxoSeal { secondary: TxoSealExt::Fallback(f), ..*d }));
            v.push(("noise instead of fallback", WTxoSeal { secondary: noise(rng.bytes()), ..*d }));
        }
    }
    if let (WOutpoint::Extern(p), TxoSealExt::Fallback(s)) = (d.primary, d.secondary) {
        if p != s {
            v.push(("parts swapped", WTxoSeal { primary: WOutpoint::Extern(s), secondary: TxoSealExt::Fallback(p) }));
        }
    }
    v
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (&'static str, String)> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| ("panic", format!("panicked: {}", panic_text(&p))))
}

fn key(d: &WTxoSeal) -> u64 {
    let mut x = 0u64;
    for c in encode_def(d).chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        x = mix(x ^ u64::from_le_bytes(b));
    }
    x
}

fn token_case(rng: &mut Rng, st: &mut Stats) -> Result<(), (&'static str, String)> {
    let mut seen = BTreeMap::<[u8; 30], WTxoSeal>::new();
    for _ in 0..12 {
        let d = def(rng);
        let mut list = vec![("base", d)];
        list.extend(neighbours(&d, rng));
        for (how, x) in list {
            let t = guard(|| x.auth_token())?.to_byte_array();
            st.evaluations += 1;
            st.inc(&format!("token of: {how}"));
            st.distinct.insert(key(&x));
            st.digest = st.digest.wrapping_add(crate::sha::dig(&t));
            let want = Btc::token(&x).to_byte_array();
            if t != want {
                return Err((
                    "token",
                    format!("token of {x} is {} while its commitment is {}", hex(&t), hex(&want)),
                ));
            }
            // The same definition always has the same token.
            let y = x;
            let enc = crate::world::ser(&x);
            if enc != encode_def(&x) {
                return Err(("harness", format!("unexpected encoding of {x}")));
            }
            let z = WTxoSeal::strict_decode(&mut StrictReader::in_memory::<512>(&enc[..]))
                .map_err(|e| ("harness", e.to_string()))?;
            if guard(|| y.auth_token())?.to_byte_array() != t || guard(|| z.auth_token())?.to_byte_array() != t {
                return Err(("unstable", format!("token of {x} is not stable")));
            }
            if let Some(o) = seen.insert(t, x) {
                if o != x {
                    return Err(("collision", format!("{o} and {x} have the same token {}", hex(&t))));
                }
            }
        }
    }
    Ok(())
}

fn algebra_case(rng: &mut Rng, st: &mut Stats) -> Result<(), (&'static str, String)> {
    let mut wids: Vec<[u8; 32]> = (0..4).map(|_| b32(rng)).collect();
    let defs: Vec<WTxoSeal> = (0..10).map(|_| def(rng)).collect();
    // Witness ids equal to the ones used by definitions.
    for d in &defs {
        if let WOutpoint::Extern(o) = d.primary {
            wids.push(o.txid.to_byte_array());
        }
    }
    wids.truncate(8);
    let uniq: BTreeSet<_> = wids.iter().copied().collect();
    for d in &defs {
        let mut all = vec![("base", *d)];
        all.extend(neighbours(d, rng));
        for (how, d) in all {
            st.inc(&format!("definition: {how}"));
            let src = guard(|| d.to_src())?;
            let mut outs = BTreeSet::new();
            for w in &uniq {
                let got = guard(|| d.resolve(Txid::from_byte_array(*w)))?;
                st.evaluations += 1;
                st.distinct.insert(mix(key(&d) ^ w[3] as u64 ^ ((w[17] as u64) << 8) ^ ((w[31] as u64) << 16)));
                let want = match d.primary {
                    WOutpoint::Wout(v) => (*w, v.to_u32()),
                    WOutpoint::Extern(o) => (o.txid.to_byte_array(), o.vout.to_u32()),
                };
                let has = (got.primary.txid.to_byte_array(), got.primary.vout.to_u32());
                if has != want {
                    return Err((
                        "resolve",
                        format!(
                            "{d} with witness {} is resolved to {} instead of {}:{}",
                            hex(w),
                            got.primary,
                            hex(&want.0),
                            want.1
                        ),
                    ));
                }
                if got.secondary != d.secondary {
                    return Err(("secondary", format!("{d} lost its secondary part after resolution: {got}")));
                }
                if guard(|| d.resolve(Txid::from_byte_array(*w)))? != got {
                    return Err(("unstable", format!("{d} is resolved differently each time")));
                }
                outs.insert(got);
                match (&src, d.primary) {
                    (Some(s), WOutpoint::Extern(_)) if *s == got => st.inc("external seals"),
                    (None, WOutpoint::Wout(_)) => st.inc("witness-relative seals"),
                    (s, _) => {
                        return Err(("to_src", format!("{d}: to_src gives {s:?}, resolve gives {got}")));
                    }
                }
                let t = TxoSeal { primary: got.primary, secondary: got.secondary };
                st.digest = st.digest.wrapping_add(crate::sha::dig(t.to_string().as_bytes()));
            }
            let n = if src.is_some() { 1 } else { uniq.len() };
            if outs.len() != n {
                return Err(("injective", format!("{d} has {} resolutions for {} witnesses", outs.len(), uniq.len())));
            }
        }
    }
    // Different definitions are different seals under the same witness, unless an external one spells
    // out what the relative one means.
    let w = wids[0];
    let mut by = BTreeMap::<TxoSeal, WTxoSeal>::new();
    for d in &defs {
        let s = d.resolve(Txid::from_byte_array(w));
        if let Some(o) = by.insert(s, *d) {
            let alias = matches!(
                (o.primary, d.primary),
                (WOutpoint::Wout(_), WOutpoint::Extern(_)) | (WOutpoint::Extern(_), WOutpoint::Wout(_))
            );
            if o != *d && !alias {
                return Err(("alias", format!("{o} and {d} are resolved to the same seal")));
            }
        }
    }
    Ok(())
}

pub fn case(prop: &'static str, seed: u64, case: u64, st: &mut Stats) -> Vec<Report> {
    let mut rng = Rng::of(&[seed, crate::prop_no(prop), 3, case]);
    let res = if prop == "C14" { token_case(&mut rng, st) } else { algebra_case(&mut rng, st) };
    st.sample(|| {
        let mut rng = Rng::of(&[seed, crate::prop_no(prop), 3, case]);
        let d = def(&mut rng);
        format!("case {case}: {d} -> token {}, to_src {:?}", hex(&d.auth_token().to_byte_array()), d.to_src())
    });
    match res {
        Ok(()) => vec![],
        Err((kind, text)) => {
            assert_ne!(kind, "harness", "{text}");
            vec![Report { world: "btc", case, kind: kind.to_owned(), text: text.clone(), dump: vec![text] }]
        }
    }
}
