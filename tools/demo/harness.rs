// Scenario harness shared by the demonstrations: a simple contract, real bitcoin seals, real opret witnesses.
#![allow(dead_code, unused_imports, clippy::all)]
pub use std::cell::RefCell;
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::convert::Infallible;
pub use std::error::Error;
pub use amplify::confinement::{Confined, SmallOrdMap, SmallVec, TinyOrdMap};
pub use amplify::num::u5;
pub use amplify::{none, ByteArray, Bytes};
pub use bp::seals::{mmb, mpc, Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
pub use bp::{Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, Txid, Vout};
pub use commit_verify::CommitId;
pub use rgbcore::*;
pub use strict_encoding::{StrictDecode, StrictDumb, StrictEncode};
pub use ultrasonic::aluvm::alu::{aluasm, CoreConfig, Lib, LibId, LibSite};
pub use ultrasonic::aluvm::FIELD_ORDER_SECP;
pub use ultrasonic::{
    fe256, AuthToken, CallError, CellAddr, Codex, CodexId, ContractId, Genesis, Identity, Input, LibRepo, Memory,
    Operation, Opid, StateCell, StateData, StateValue, VerifiedOperation,
};

pub type Block = OperationSeals<TxoSeal>;
pub type Res = Result<(), VerificationError<TxoSeal>>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    Op(Opid),
    Seals(Opid, BTreeMap<u16, WTxoSeal>),
    Witness(Opid, Txid),
}

pub fn lib() -> Lib { let code = aluasm! { stop; }; Lib::assemble(&code).unwrap() }

pub fn codex() -> Codex {
    let lib_id = lib().lib_id();
    let mut verifiers = TinyOrdMap::new();
    verifiers.insert(0u16, LibSite::new(lib_id, 0)).unwrap();
    Codex {
        name: amplify::confinement::TinyString::try_from("Demo".to_owned()).unwrap(),
        developer: Identity::default(),
        version: Default::default(),
        features: Default::default(),
        timestamp: 1732529307,
        field_order: FIELD_ORDER_SECP,
        input_config: CoreConfig::default(),
        verification_config: CoreConfig::default(),
        verifiers,
    }
}

pub struct Contract {
    pub codex: Codex,
    pub id: ContractId,
    pub lib: Lib,
    pub immutable: BTreeMap<CellAddr, StateValue>,
    pub owned: BTreeMap<CellAddr, StateCell>,
    pub spent: BTreeSet<CellAddr>,
    pub known: BTreeSet<Opid>,
    pub log: Vec<Ev>,
    /// Every read of contract memory (made by the codex when it verifies an operation)
    pub reads: RefCell<Vec<CellAddr>>,
    pub libs_read: RefCell<usize>,
}
impl Memory for Contract {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> {
        self.reads.borrow_mut().push(addr);
        self.owned.get(&addr).copied()
    }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> {
        self.reads.borrow_mut().push(addr);
        self.immutable.get(&addr).copied()
    }
}
impl LibRepo for Contract {
    fn get_lib(&self, lib_id: LibId) -> Option<&Lib> {
        *self.libs_read.borrow_mut() += 1;
        (self.lib.lib_id() == lib_id).then_some(&self.lib)
    }
}
impl Contract {
    fn add(&mut self, opid: Opid, op: &Operation) {
        for input in &op.destructible_in {
            self.owned.remove(&input.addr);
            self.spent.insert(input.addr);
        }
        for (no, out) in op.immutable_out.iter().enumerate() {
            self.immutable.insert(CellAddr::new(opid, no as u16), out.value);
        }
        for (no, out) in op.destructible_out.iter().enumerate() {
            self.owned.insert(CellAddr::new(opid, no as u16), *out);
        }
        self.known.insert(opid);
    }
    pub fn run(&mut self, blocks: impl IntoIterator<Item = Block>) -> Res {
        self.evaluate(Reader { blocks: blocks.into_iter().collect::<Vec<_>>().into_iter(), reads: &RefCell::new(0) })
    }
}
impl ContractApi<TxoSeal> for Contract {
    fn contract_id(&self) -> ContractId { self.id }
    fn codex(&self) -> &Codex { &self.codex }
    fn repo(&self) -> &impl LibRepo { self }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool { self.known.contains(&opid) }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        self.log.push(Ev::Op(opid));
        let op = op.into_operation();
        self.add(opid, &op);
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, WTxoSeal>) {
        self.log.push(Ev::Seals(opid, seals.iter().map(|(a, b)| (*a, *b)).collect()));
    }
    fn apply_witness(&mut self, opid: Opid, witness: SealWitness<TxoSeal>) {
        self.log.push(Ev::Witness(opid, witness.published.txid()));
    }
}

pub struct Reader<'a> {
    pub blocks: std::vec::IntoIter<Block>,
    pub reads: &'a RefCell<usize>,
}
impl ReadOperation for Reader<'_> {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<Block>, impl Error + 'static> {
        *self.reads.borrow_mut() += 1;
        Result::<_, Infallible>::Ok(self.blocks.next())
    }
}

/// A self-contained seal definition with a distinct outpoint for each number.
pub fn seal(no: u8) -> WTxoSeal {
    WTxoSeal {
        primary: WOutpoint::Extern(Outpoint::new(Txid::from_byte_array([no; 32]), no as u32)),
        secondary: TxoSealExt::Noise(Noise::from(Bytes::from([no; 40]))),
    }
}
/// A witness-relative seal definition.
pub fn wseal(vout: u32) -> WTxoSeal {
    WTxoSeal {
        primary: WOutpoint::Wout(Vout::from_u32(vout)),
        secondary: TxoSealExt::Noise(Noise::from(Bytes::from([vout as u8 ^ 0x55; 40]))),
    }
}
/// The commitment to a definition, computed independently of the library under test.
pub fn token(seal: &WTxoSeal) -> AuthToken {
    let id = seal.commit_id().to_byte_array();
    let mut buf = [0u8; 30];
    buf.copy_from_slice(&id[..30]);
    AuthToken::from_byte_array(buf)
}
pub fn cell(seal: &WTxoSeal) -> StateCell { StateCell { data: StateValue::None, auth: token(seal), lock: None } }
pub fn smap(seals: &[(u16, WTxoSeal)]) -> SmallOrdMap<u16, WTxoSeal> {
    let mut map = SmallOrdMap::new();
    for (no, s) in seals {
        map.insert(*no, *s).unwrap();
    }
    map
}

pub fn genesis(seals: &[WTxoSeal]) -> Genesis {
    let mut genesis = Genesis::strict_dumb();
    genesis.codex_id = codex().codex_id();
    genesis.immutable_out = SmallVec::from_iter_checked([StateData::new(0u64, 1000u64)]);
    genesis.destructible_out = SmallVec::from_iter_checked(seals.iter().map(cell));
    genesis
}
/// Genesis in the form in which it comes in a consignment.
pub fn genesis_block(genesis: &Genesis, seals: &[(u16, WTxoSeal)]) -> Block {
    OperationSeals {
        operation: genesis.to_operation(genesis.codex_id.to_byte_array().into()),
        defined_seals: smap(seals),
        witness: None,
    }
}
pub const CONTRACT_ID: [u8; 32] = [0xC0; 32];
pub fn contract(genesis: &Genesis) -> Contract {
    let id = ContractId::from(CONTRACT_ID);
    let op = genesis.to_operation(id);
    let mut contract = Contract {
        codex: codex(),
        id,
        lib: lib(),
        immutable: BTreeMap::new(),
        owned: BTreeMap::new(),
        spent: BTreeSet::new(),
        known: BTreeSet::new(),
        log: vec![],
        reads: RefCell::new(vec![]),
        libs_read: RefCell::new(0),
    };
    contract.add(op.opid(), &op);
    contract
}
pub fn gid(genesis: &Genesis) -> Opid { genesis.to_operation(ContractId::from(CONTRACT_ID)).opid() }

pub fn op(inputs: &[CellAddr], outs: &[WTxoSeal], nonce: u64) -> Operation {
    Operation {
        version: Default::default(),
        contract_id: ContractId::from(CONTRACT_ID),
        call_id: 0,
        nonce: fe256::from(nonce),
        witness: StateValue::None,
        destructible_in: SmallVec::from_iter_checked(
            inputs.iter().map(|addr| Input { addr: *addr, witness: StateValue::None }),
        ),
        immutable_in: SmallVec::new(),
        destructible_out: SmallVec::from_iter_checked(outs.iter().map(cell)),
        immutable_out: SmallVec::new(),
    }
}
/// A witness closing seals at the given outpoints over the operation id.
pub fn witness(opid: Opid, closes: &[Outpoint]) -> SealWitness<TxoSeal> { witness_salted(opid, closes, 0) }
pub fn witness_salted(opid: Opid, closes: &[Outpoint], salt: u64) -> SealWitness<TxoSeal> {
    let msg = mmb::Message::from(opid.to_byte_array());
    let mut map = SmallOrdMap::new();
    for i in 0..closes.len().max(1) {
        map.insert(i as u32, msg).unwrap();
    }
    let bundle = mmb::BundleProof { map };
    let protocol = mpc::ProtocolId::from_byte_array([0xADu8; 32]);
    let mut messages = amplify::confinement::MediumOrdMap::<mpc::ProtocolId, mpc::MessageSource>::new();
    messages.insert(protocol, mpc::MessageSource::Mmb(bundle.clone())).unwrap();
    let source = mpc::Source { min_depth: u5::with(3), entropy: 0xFE + salt, messages: mpc::MessageMap::from(messages) };
    let tree = source.into_merkle_tree().unwrap();
    let commitment = tree.commit_id();
    let proof = tree.into_proofs().next().unwrap().1;
    let anchor = Anchor {
        mmb_proof: bundle,
        mpc_protocol: protocol,
        mpc_proof: proof,
        dbc_proof: None,
        fallback_proof: Default::default(),
    };
    let mut tx = Tx::strict_dumb();
    tx.inputs = Confined::from_iter_checked(closes.iter().map(|prev_output| TxIn {
        prev_output: *prev_output,
        sig_script: Default::default(),
        sequence: SeqNo::ZERO,
        witness: Default::default(),
    }));
    tx.outputs = Confined::from_iter_checked([TxOut {
        value: Sats::ZERO,
        script_pubkey: ScriptPubkey::op_return(commitment.as_slice()),
    }]);
    SealWitness::new(tx, anchor)
}
pub fn outpoint(seal: &WTxoSeal) -> Outpoint {
    match seal.primary {
        WOutpoint::Extern(o) => o,
        WOutpoint::Wout(_) => panic!("witness-relative"),
    }
}
pub fn wout(w: &SealWitness<TxoSeal>, vout: u32) -> Outpoint { Outpoint::new(w.published.txid(), vout) }
pub fn block(operation: Operation, seals: &[(u16, WTxoSeal)], witness: Option<SealWitness<TxoSeal>>) -> Block {
    OperationSeals { operation, defined_seals: smap(seals), witness }
}
/// Operation spending cells whose seals are at `closes`.
pub fn spend(inputs: &[CellAddr], closes: &[Outpoint], outs: &[WTxoSeal], nonce: u64) -> (Opid, Block) {
    let operation = op(inputs, outs, nonce);
    let opid = operation.opid();
    let w = witness(opid, closes);
    let seals = outs.iter().enumerate().map(|(no, s)| (no as u16, *s)).collect::<Vec<_>>();
    (opid, block(operation, &seals, Some(w)))
}
pub fn addr(opid: Opid, pos: u16) -> CellAddr { CellAddr::new(opid, pos) }
pub fn kind(res: &Res) -> &'static str {
    match res {
        Ok(()) => "ok",
        Err(VerificationError::Stream(_)) => "stream",
        Err(VerificationError::NoCodexCommitment) => "codex",
        Err(VerificationError::NoWitness(_)) => "nowitness",
        Err(VerificationError::SealsNotClosed(..)) => "notclosed",
        Err(VerificationError::SealUnknown(_)) => "unknown",
        Err(VerificationError::SealsDefinitionMismatch { .. }) => "mismatch",
        Err(VerificationError::Vm(_)) => "vm",
    }
}
