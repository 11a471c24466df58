//! A small contract over bitcoin seals: codex, ledger, consignments and witnesses.
#![allow(dead_code, unused_imports)]




use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::error::Error;

pub use amplify::confinement::{Confined, MediumOrdMap, SmallOrdMap};
pub use amplify::num::u5;
pub use amplify::ByteArray;
use bp::seals::mmb::BundleProof;
use bp::seals::mpc::{MessageMap, MessageSource, ProtocolId, Source};
pub use bp::seals::{mmb, Anchor, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
pub use bp::{Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, Txid, Vout};
use commit_verify::{CommitId, ReservedBytes};
pub use rgbcore::*;
pub use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictReader, StrictWriter};
pub use ultrasonic::aluvm::alu::{CoreConfig, Lib, LibId, LibSite};
pub use ultrasonic::aluvm::FIELD_ORDER_SECP;
pub use ultrasonic::*;

pub type Block = OperationSeals<TxoSeal>;
pub type Wit = SealWitness<TxoSeal>;
pub type Fail = VerificationError<TxoSeal>;

fn lib_ok() -> Lib { Lib::assemble(&uasm! { stop; }).unwrap() }
fn lib_fail() -> Lib { Lib::assemble(&uasm! { put E1, 7; test E2; chk CO; }).unwrap() }

/// Methods of the codex.
pub const OK: u16 = 0;
pub const FAILS: u16 = 1;

pub fn codex() -> Codex {
    let mut codex = Codex::strict_dumb();
    codex.timestamp = 1732529307;
    codex.field_order = FIELD_ORDER_SECP;
    codex.input_config = CoreConfig { halt: true, complexity_lim: Some(10_000_000) };
    codex.verification_config = CoreConfig { halt: true, complexity_lim: Some(10_000_000) };
    codex.verifiers = Confined::from_iter_checked([
        (OK, LibSite::new(lib_ok().lib_id(), 0)),
        (FAILS, LibSite::new(lib_fail().lib_id(), 0)),
    ]);
    codex
}

pub fn contract_id() -> ContractId { ContractId::from_byte_array([0xC1; 32]) }

#[derive(Clone)]
pub struct Ledger {
    pub codex: Codex,
    pub contract_id: ContractId,
    pub libs: HashMap<LibId, Lib>,
    pub global: BTreeMap<CellAddr, StateValue>,
    pub owned: BTreeMap<CellAddr, StateCell>,
    pub known: BTreeSet<Opid>,
    pub log: Vec<String>,
    pub seals: Vec<(Opid, SmallOrdMap<u16, WTxoSeal>)>,
}

impl Ledger {
    pub fn new(genesis: &Operation) -> Ledger {
        let mut op = genesis.clone();
        op.contract_id = contract_id();
        let mut l = Ledger {
            codex: codex(),
            contract_id: contract_id(),
            libs: [lib_ok(), lib_fail()].into_iter().map(|l| (l.lib_id(), l)).collect(),
            global: BTreeMap::new(),
            owned: BTreeMap::new(),
            known: BTreeSet::new(),
            log: vec![],
            seals: vec![],
        };
        l.take(&op);
        l
    }
    fn take(&mut self, op: &Operation) {
        let opid = op.opid();
        for i in &op.destructible_in {
            self.owned.remove(&i.addr);
        }
        for (no, v) in op.immutable_out.iter().enumerate() {
            self.global.insert(CellAddr::new(opid, no as u16), v.value);
        }
        for (no, v) in op.destructible_out.iter().enumerate() {
            self.owned.insert(CellAddr::new(opid, no as u16), *v);
        }
        self.known.insert(opid);
    }
}

impl Memory for Ledger {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.owned.get(&addr).copied() }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> { self.global.get(&addr).copied() }
}
impl LibRepo for Ledger {
    fn get_lib(&self, id: LibId) -> Option<&Lib> { self.libs.get(&id) }
}
impl ContractApi<TxoSeal> for Ledger {
    fn contract_id(&self) -> ContractId { self.contract_id }
    fn codex(&self) -> &Codex { &self.codex }
    fn repo(&self) -> &impl LibRepo { self }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool { self.known.contains(&opid) }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        self.log.push(format!("op {opid}"));
        let op = op.into_operation();
        self.take(&op);
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, WTxoSeal>) {
        self.log.push(format!("seals {opid} {}", seals.len()));
        self.seals.push((opid, seals));
    }
    fn apply_witness(&mut self, opid: Opid, witness: Wit) {
        self.log.push(format!("witness {opid} {}", witness.published.pub_id()));
    }
}

pub struct Reader {
    pub blocks: std::vec::IntoIter<Block>,
    pub fail_after: Option<usize>,
    pub read: usize,
}
impl ReadOperation for Reader {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<Block>, impl Error + 'static> {
        if self.fail_after == Some(self.read) {
            return Err(std::io::Error::other("broken stream"));
        }
        self.read += 1;
        Ok(self.blocks.next())
    }
}

pub fn eval(l: &mut Ledger, blocks: &[Block]) -> Result<(), Fail> {
    l.evaluate(Reader { blocks: blocks.to_vec().into_iter(), fail_after: None, read: 0 })
}
pub fn eval_broken(l: &mut Ledger, blocks: &[Block], after: usize) -> Result<(), Fail> {
    l.evaluate(Reader { blocks: blocks.to_vec().into_iter(), fail_after: Some(after), read: 0 })
}

pub fn txid(n: u8) -> Txid { Txid::from_byte_array([n; 32]) }
pub fn outpoint(n: u8, vout: u32) -> Outpoint { Outpoint::new(txid(n), Vout::from_u32(vout)) }
pub fn ext(o: Outpoint) -> WTxoSeal {
    WTxoSeal { primary: WOutpoint::Extern(o), secondary: TxoSealExt::Fallback(outpoint(0xFA, 7)) }
}
pub fn wout(vout: u32) -> WTxoSeal {
    WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(vout)), secondary: TxoSealExt::Fallback(outpoint(0xFA, 7)) }
}

/// Genesis as it goes in a consignment, i.e. with the codex id.
pub fn genesis(defs: &[WTxoSeal]) -> Operation {
    op_ext(ContractId::from_byte_array(codex().codex_id().to_byte_array()), &[], defs, OK, 0)
}
/// Operation id of the genesis.
pub fn gid(genesis: &Operation) -> Opid {
    let mut op = genesis.clone();
    op.contract_id = contract_id();
    op.opid()
}
pub fn op(inputs: &[CellAddr], defs: &[WTxoSeal], nonce: u64) -> Operation {
    op_ext(contract_id(), inputs, defs, OK, nonce)
}
pub fn op_ext(cid: ContractId, inputs: &[CellAddr], defs: &[WTxoSeal], call: u16, nonce: u64) -> Operation {
    let mut op = Operation::strict_dumb();
    op.contract_id = cid;
    op.call_id = call;
    op.nonce = nonce.into();
    op.witness = StateValue::None;
    op.destructible_in = Confined::from_iter_checked(
        inputs.iter().map(|a| Input { addr: *a, witness: StateValue::None }),
    );
    op.immutable_in = Default::default();
    op.immutable_out = Default::default();
    op.destructible_out = Confined::from_iter_checked(
        defs.iter().map(|d| StateCell { data: StateValue::None, auth: d.auth_token(), lock: None }),
    );
    op
}
pub fn at(opid: Opid, no: u16) -> CellAddr { CellAddr::new(opid, no) }

/// A block disclosing all the definitions.
pub fn block(op: &Operation, defs: &[WTxoSeal], witness: Option<Wit>) -> Block {
    let defs: Vec<_> = defs.iter().enumerate().map(|(i, d)| (i as u16, *d)).collect();
    block_some(op, &defs, witness)
}
pub fn block_some(op: &Operation, defs: &[(u16, WTxoSeal)], witness: Option<Wit>) -> Block {
    OperationSeals {
        operation: op.clone(),
        defined_seals: Confined::from_iter_checked(defs.iter().copied()),
        witness,
    }
}

/// Transaction which spends the outpoints and commits to the operation with each of them.
pub fn witness(spent: &[Outpoint], opid: Opid) -> Wit { witness_with(spent, opid, 0) }
pub fn witness_with(spent: &[Outpoint], opid: Opid, lock: u32) -> Wit {
    let mut spent = spent.to_vec();
    if spent.is_empty() {
        spent.push(outpoint(0xEE, 0));
    }
    let bundle = BundleProof {
        map: Confined::from_iter_checked(
            spent.iter().enumerate().map(|(i, _)| (i as u32, mmb::Message::from(opid.to_byte_array()))),
        ),
    };
    let protocol = ProtocolId::from_byte_array([0xAD; 32]);
    let mut messages = MediumOrdMap::new();
    messages.insert(protocol, MessageSource::Mmb(bundle.clone())).unwrap();
    let source = Source { min_depth: u5::with(3), entropy: lock as u64, messages: MessageMap::from(messages) };
    let tree = source.into_merkle_tree().unwrap();
    let commitment = tree.commit_id();
    let (_, mpc_proof) = tree.into_proofs().find(|(id, _)| *id == protocol).unwrap();
    let tx = Tx {
        version: Default::default(),
        inputs: Confined::from_iter_checked(spent.iter().map(|o| TxIn {
            prev_output: *o,
            sig_script: Default::default(),
            sequence: SeqNo::ZERO,
            witness: Default::default(),
        })),
        outputs: Confined::from_checked(vec![TxOut {
            value: Sats::from(lock as u64),
            script_pubkey: ScriptPubkey::op_return(&commitment.to_byte_array()),
        }]),
        lock_time: Default::default(),
    };
    let anchor = Anchor {
        mmb_proof: bundle,
        mpc_protocol: protocol,
        mpc_proof,
        dbc_proof: None,
        fallback_proof: ReservedBytes::default(),
    };
    SealWitness::new(tx, anchor)
}
/// Output of the witness.
pub fn out_of(w: &Wit, vout: u32) -> Outpoint { Outpoint::new(w.published.pub_id(), Vout::from_u32(vout)) }

pub fn accepted(r: Result<(), Fail>, what: &str) {
    if let Err(e) = r {
        eprintln!("DEMO: {what} must be accepted, but: {e}");
        std::process::exit(1);
    }
}
pub fn rejected(r: Result<(), Fail>, what: &str) {
    if r.is_ok() {
        eprintln!("DEMO: {what} must be rejected, but was accepted");
        std::process::exit(1);
    }
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("DEMO: {what}");
        std::process::exit(1);
    }
}
