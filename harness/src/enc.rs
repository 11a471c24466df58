//! C16: encoding of consignment items.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use strict_encoding::{StrictDecode, StrictDumb, StrictReader, StrictType, StreamReader};

use crate::engine::{dump_blocks, fingerprint};
use crate::ledger::Ledger;
use crate::rng::Rng;
use crate::run::{evaluate, panic_text};
use crate::scen::{build, Scenario};
use crate::stats::{Report, Stats};
use crate::world::{seals_dig, ser, Block, World};

/// Access to the encodings of an item in a particular world.
pub trait Codec: World {
    fn encode(b: &Block<Self>) -> Vec<u8>;
    /// Returns the item and the number of bytes it took.
    fn decode(data: &[u8]) -> Result<(Block<Self>, usize), String>;
    fn dumb() -> Block<Self>;
    fn type_name() -> (String, String);
    /// `None` if the format is not supported in this configuration.
    fn to_json(b: &Block<Self>) -> Option<Result<String, String>>;
    fn from_json(s: &str) -> Option<Result<Block<Self>, String>>;
}

macro_rules! codec {
    ($w:ty) => {
        impl Codec for $w {
            fn encode(b: &Block<Self>) -> Vec<u8> { ser(b) }
            fn decode(data: &[u8]) -> Result<(Block<Self>, usize), String> {
                let mut r = StrictReader::with(StreamReader::in_memory::<{ usize::MAX }>(data));
                let b = Block::<Self>::strict_decode(&mut r).map_err(|e| e.to_string())?;
                Ok((b, r.into_cursor().position() as usize))
            }
            fn dumb() -> Block<Self> { Block::<Self>::strict_dumb() }
            fn type_name() -> (String, String) {
                (
                    Block::<Self>::STRICT_LIB_NAME.to_string(),
                    Block::<Self>::strict_name().map(|n| n.to_string()).unwrap_or_default(),
                )
            }
            #[cfg(feature = "cfg-all")]
            fn to_json(b: &Block<Self>) -> Option<Result<String, String>> {
                Some(serde_json::to_string(b).map_err(|e| e.to_string()))
            }
            #[cfg(feature = "cfg-all")]
            fn from_json(s: &str) -> Option<Result<Block<Self>, String>> {
                Some(serde_json::from_str(s).map_err(|e| e.to_string()))
            }
            #[cfg(not(feature = "cfg-all"))]
            fn to_json(_: &Block<Self>) -> Option<Result<String, String>> { None }
            #[cfg(not(feature = "cfg-all"))]
            fn from_json(_: &str) -> Option<Result<Block<Self>, String>> { None }
        }
    };
}
codec!(crate::mock::Mock);
#[cfg(any(feature = "cfg-default", feature = "cfg-all", feature = "cfg-liquid"))]
codec!(crate::btc::Btc);

/// The layout, written out by hand: operation, 16-bit count, (16-bit position, definition)*,
/// optional (published, client) witness.
pub struct Layout {
    pub bytes: Vec<u8>,
    /// Ranges of (position, definition) entries.
    pub entries: Vec<(usize, usize)>,
    pub count_at: usize,
    pub tag_at: usize,
}
pub fn layout<W: World>(b: &Block<W>) -> Layout {
    let mut bytes = ser(&b.operation);
    let count_at = bytes.len();
    bytes.extend((b.defined_seals.len() as u16).to_le_bytes());
    let mut entries = vec![];
    for (pos, def) in &b.defined_seals {
        let at = bytes.len();
        bytes.extend(pos.to_le_bytes());
        bytes.extend(W::enc_def(def));
        entries.push((at, bytes.len()));
    }
    let tag_at = bytes.len();
    match &b.witness {
        None => bytes.push(0),
        Some(w) => {
            bytes.push(1);
            bytes.extend(ser(&w.published));
            bytes.extend(ser(&w.client));
        }
    }
    Layout { bytes, entries, count_at, tag_at }
}

/// Field-by-field comparison, independent of the encoding of the item as a whole.
pub fn same<W: World>(a: &Block<W>, b: &Block<W>) -> Result<(), &'static str> {
    // Operations are compared by their full data, since their `Eq` looks just at ids.
    if ser(&a.operation) != ser(&b.operation) {
        return Err("operation");
    }
    if a.defined_seals.len() != b.defined_seals.len()
        || a.defined_seals
            .iter()
            .zip(b.defined_seals.iter())
            .any(|((p, x), (q, y))| p != q || x != y)
    {
        return Err("defined seals");
    }
    match (&a.witness, &b.witness) {
        (None, None) => Ok(()),
        (Some(x), Some(y)) => {
            if x.published != y.published {
                return Err("published witness");
            }
            if ser(&x.client) != ser(&y.client) {
                return Err("client witness");
            }
            Ok(())
        }
        _ => Err("presence of the witness"),
    }
}

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("{what} panicked: {}", panic_text(&p)))
}

/// Damages the encoding; the part of the data which belongs to the item itself is preferred.
pub fn damage(bytes: &mut Vec<u8>, own: (usize, usize), rng: &mut Rng) -> &'static str {
    let n = bytes.len();
    let at = if rng.pct(60) && own.0 < own.1 { rng.range(own.0, own.1 - 1) } else { rng.below(n) };
    match rng.below(7) {
        0 => {
            bytes[at] ^= 1 << rng.below(8);
            "bit"
        }
        1 => {
            bytes[at] = *rng.pick(&[0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF]);
            "byte"
        }
        2 => {
            bytes.insert(at, rng.u64() as u8);
            "insert"
        }
        3 => {
            bytes.remove(at);
            "remove"
        }
        4 => {
            let end = (at + 1 + rng.below(40)).min(n);
            let part: Vec<u8> = bytes[at..end].to_vec();
            let to = rng.below(n);
            for (i, b) in part.into_iter().enumerate() {
                bytes.insert((to + i).min(bytes.len()), b);
            }
            "copy"
        }
        5 => {
            let end = (at + 1 + rng.below(200)).min(n);
            bytes.drain(at..end);
            "cut"
        }
        _ => {
            for _ in 0..rng.range(2, 12) {
                let i = rng.below(n);
                bytes[i] = rng.u64() as u8;
            }
            "noise"
        }
    }
}

fn check<W: Codec>(b: &Block<W>, sc: &Scenario<W>, rng: &mut Rng, st: &mut Stats) -> Result<(), (&'static str, String)> {
    let enc = guard("encoding", || W::encode(b)).map_err(|e| ("panic", e))?;
    let lay = layout::<W>(b);
    if enc != lay.bytes {
        let at = enc.iter().zip(&lay.bytes).position(|(a, b)| a != b).unwrap_or(enc.len().min(lay.bytes.len()));
        return Err((
            "layout",
            format!(
                "encoding ({} bytes) differs from the documented layout ({} bytes) at byte {at}",
                enc.len(),
                lay.bytes.len()
            ),
        ));
    }
    st.inc("encodings compared with the layout");
    // Followed by something else, as in a stream.
    let tail = rng.below(9);
    let mut data = enc.clone();
    data.extend(rng.bytes::<8>().iter().take(tail));
    match guard("decoding", || W::decode(&data)).map_err(|e| ("panic", e))? {
        Err(e) => return Err(("roundtrip", format!("own encoding is not decoded: {e}"))),
        Ok((d, used)) => {
            if used != enc.len() {
                return Err(("roundtrip", format!("{used} bytes were read while {} were written", enc.len())));
            }
            same::<W>(b, &d).map_err(|f| ("roundtrip", format!("decoded item differs in {f}")))?;
            same::<W>(&d.clone(), b).map_err(|f| ("clone", format!("cloned item differs in {f}")))?;
        }
    }
    st.inc("round trips");
    let cl = b.clone();
    same::<W>(b, &cl).map_err(|f| ("clone", format!("cloned item differs in {f}")))?;
    st.inc("clones compared");

    match guard("JSON", || W::to_json(b)).map_err(|e| ("panic", e))? {
        None => {}
        Some(Err(e)) => return Err(("json", format!("item is not serialized: {e}"))),
        Some(Ok(js)) => {
            if let Some(bad) = json_keys(&js, b.witness.is_some()) {
                return Err(("json", bad));
            }
            match guard("JSON", || W::from_json(&js)).map_err(|e| ("panic", e))?.expect("supported") {
                Err(e) => return Err(("json", format!("own JSON is not parsed: {e}"))),
                Ok(d) => same::<W>(b, &d).map_err(|f| ("json", format!("item parsed from JSON differs in {f}")))?,
            }
            st.inc("JSON round trips");
        }
    }

    // Truncation.
    for _ in 0..6 {
        let at = match rng.below(4) {
            0 => enc.len() - 1,
            1 => lay.tag_at,
            2 => (lay.count_at + rng.below(3)).min(enc.len() - 1),
            _ => rng.below(enc.len()),
        };
        if guard("decoding", || W::decode(&enc[..at]).is_ok()).map_err(|e| ("panic", e))? {
            return Err(("malformed", format!("encoding truncated from {} to {at} bytes is decoded", enc.len())));
        }
        st.inc("truncations rejected");
    }

    // Definitions listed twice or out of order.
    if !lay.entries.is_empty() {
        let k = rng.below(lay.entries.len());
        let entry = enc[lay.entries[k].0..lay.entries[k].1].to_vec();
        let mut dup = enc[..lay.entries[k].1].to_vec();
        dup.extend(&entry);
        dup.extend(&enc[lay.entries[k].1..]);
        dup[lay.count_at..lay.count_at + 2].copy_from_slice(&(lay.entries.len() as u16 + 1).to_le_bytes());
        if guard("decoding", || W::decode(&dup).is_ok()).map_err(|e| ("panic", e))? {
            return Err(("malformed", s!("a position is listed twice but the data are decoded")));
        }
        st.inc("duplicate positions rejected");
        if lay.entries.len() > 1 {
            let k = rng.below(lay.entries.len() - 1);
            let (a, b) = (lay.entries[k], lay.entries[k + 1]);
            let mut swp = enc[..a.0].to_vec();
            swp.extend(&enc[b.0..b.1]);
            swp.extend(&enc[a.0..a.1]);
            swp.extend(&enc[b.1..]);
            if guard("decoding", || W::decode(&swp).is_ok()).map_err(|e| ("panic", e))? {
                return Err(("malformed", s!("positions are listed out of order but the data are decoded")));
            }
            st.inc("disorder rejected");
        }
    }
    // Wrong option tag.
    let mut tag = enc.clone();
    tag[lay.tag_at] = rng.range(2, 255) as u8;
    if guard("decoding", || W::decode(&tag).is_ok()).map_err(|e| ("panic", e))? {
        return Err(("malformed", s!("wrong tag of the optional witness is decoded")));
    }
    st.inc("wrong tags rejected");

    // Arbitrary damage: either rejected, or it is the (only) encoding of another item. Not done with
    // bitcoin transactions: their decoder (a dependency) reserves memory for any number of inputs which
    // the data claim to have, and dies.
    let times = if W::NAME == "mock" { 16 } else { 0 };
    for _ in 0..times {
        let mut bad = enc.clone();
        let kind = damage(&mut bad, (lay.count_at, lay.tag_at + 1), rng);
        match guard("decoding", || W::decode(&bad)).map_err(|e| ("panic", format!("{e} [{kind}]")))? {
            Err(_) => st.inc("damaged encodings rejected"),
            Ok((d, used)) => {
                st.inc("damaged encodings decoded");
                let again = guard("encoding", || W::encode(&d)).map_err(|e| ("panic", e))?;
                if again != bad[..used] {
                    return Err(("canonical", format!("two different encodings of the same item exist [{kind}]")));
                }
                let l = layout::<W>(&d);
                if again != l.bytes {
                    return Err(("layout", s!("encoding differs from the documented layout")));
                }
                // It may be handed over to the verification.
                if rng.pct(30) {
                    let mut blocks = sc.blocks.clone();
                    let at = rng.below(blocks.len());
                    blocks[at] = d;
                    let mut l = Ledger::<W>::new(sc.env.clone(), sc.state.clone());
                    if let crate::run::Verdict::Panic(p) = evaluate(&mut l, blocks, None).verdict {
                        return Err(("panic", format!("evaluation of decoded data panicked: {p}")));
                    }
                    st.inc("damaged items evaluated");
                }
            }
        }
    }
    Ok(())
}

#[cfg(feature = "cfg-all")]
fn json_keys(js: &str, witness: bool) -> Option<String> {
    let v: serde_json::Value = match serde_json::from_str(js) {
        Ok(v) => v,
        Err(e) => return Some(format!("JSON is not well-formed: {e}")),
    };
    let Some(o) = v.as_object() else { return Some(s!("JSON item is not an object")) };
    let keys: Vec<_> = o.keys().map(|k| k.as_str()).collect();
    for k in ["operation", "definedSeals", "witness"] {
        if !keys.contains(&k) && (k != "witness" || witness) {
            return Some(format!("JSON item has no field '{k}': {keys:?}"));
        }
    }
    if keys.len() > 3 {
        return Some(format!("JSON item has extra fields: {keys:?}"));
    }
    None
}
#[cfg(not(feature = "cfg-all"))]
fn json_keys(_: &str, _: bool) -> Option<String> { None }

pub fn case<W: Codec>(seed: u64, case: u64, thorough: bool, st: &mut Stats) -> Vec<Report> {
    let mut rng = Rng::of(&[seed, 16, W::NAME.len() as u64, case]);
    let (sc, profile) = build::<W>("C16", case, thorough, &mut rng);
    st.evaluations += 1;
    st.inc(&format!("profile {profile}"));
    st.distinct.insert(fingerprint::<W>(&sc.blocks, 0));
    let fail = |kind: &str, text: String, blocks: &[Block<W>]| {
        vec![Report { world: W::NAME, case, kind: kind.to_owned(), text, dump: dump_blocks::<W>(blocks, &sc.env) }]
    };
    let tn = W::type_name();
    if tn.0 != "RGB" || !tn.1.starts_with("OperationSeals") {
        return fail("type", format!("strict type is {tn:?}"), &[]);
    }
    if case % 64 == 0 {
        let d = W::dumb();
        let e = W::encode(&d);
        match W::decode(&e) {
            Ok((x, n)) if n == e.len() && same::<W>(&x, &d).is_ok() => st.inc("default values"),
            _ => return fail("roundtrip", s!("default value doesn't survive a round trip"), &[d]),
        }
    }
    for b in sc.blocks.iter().take(6) {
        if let Err((kind, text)) = check::<W>(b, &sc, &mut rng, st) {
            return fail(kind, text, &[b.clone()]);
        }
        st.max("definitions of an item", b.defined_seals.len() as u64);
    }
    // The whole consignment as a stream of items; it must mean the same after the transfer.
    let mut stream = vec![];
    let mut sizes = BTreeMap::new();
    for (i, b) in sc.blocks.iter().enumerate() {
        let e = W::encode(b);
        sizes.insert(i, e.len());
        stream.extend(e);
    }
    st.max("bytes in a consignment", stream.len() as u64);
    let mut got: Vec<Block<W>> = vec![];
    let mut at = 0;
    while at < stream.len() {
        match W::decode(&stream[at..]) {
            Ok((b, n)) if n > 0 => {
                got.push(b);
                at += n;
            }
            Ok(_) => return fail("roundtrip", s!("nothing is read"), &sc.blocks),
            Err(e) => return fail("roundtrip", format!("item {} of a stream is not decoded: {e}", got.len()), &sc.blocks),
        }
    }
    if got.len() != sc.blocks.len() {
        return fail("roundtrip", format!("{} items read, {} written", got.len(), sc.blocks.len()), &sc.blocks);
    }
    let seals = |bs: &[Block<W>]| bs.iter().map(|b| seals_dig::<W>(&b.defined_seals)).collect::<Vec<_>>();
    if seals(&got) != seals(&sc.blocks) {
        return fail("roundtrip", s!("definitions read from a stream differ"), &sc.blocks);
    }
    let mut l1 = Ledger::<W>::new(sc.env.clone(), sc.state.clone());
    let mut l2 = Ledger::<W>::new(sc.env.clone(), sc.state.clone());
    let o1 = evaluate(&mut l1, sc.blocks.clone(), None);
    let o2 = evaluate(&mut l2, got, None);
    st.digest = st.digest.wrapping_add(o1.digest()).wrapping_add(crate::sha::dig(&stream));
    if o1.digest() != o2.digest() {
        return fail(
            "meaning",
            format!("evaluation of the transferred consignment differs: {} / {}", o1.verdict.show(), o2.verdict.show()),
            &sc.blocks,
        );
    }
    st.inc(match o1.verdict {
        crate::run::Verdict::Ok => "transferred consignments accepted",
        _ => "transferred consignments rejected",
    });
    st.sample(|| format!("{} case {case} [{profile}]: {} items, {} bytes", W::NAME, sc.blocks.len(), stream.len()));
    vec![]
}
