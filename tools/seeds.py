"""Writes the planted bugs of /verif/seeded: the patch (from the same named blocks as the corpus), the demonstration, the
description; and confirms each in a scratch copy.    seeds.py [ids...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'corpus'), os.path.join(HERE, '../sa')]
sys.dont_write_bytecode = True
import base, bug, facts as F      # noqa: E402
W = '/tmp/rgbs'
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SEEDS = {}
PRE = '// Demonstration: exits 0 if the library behaves as stated, and panics otherwise.\nextern crate alloc;\nmod harness;\nuse harness::*;\n'


def seed(sid, prop, needs, breaks, demo, bugname=None, files=None, **var):
    SEEDS[sid] = (prop, needs, breaks, demo, dict(bug.VARIANTS[bugname]) if bugname else var, files or {})


seed('first-op-contract-id', 'C01',
     'a history whose first operation carries the id of the contract in place of the codex id',
     'the genesis check accepts a first operation which commits to no codex', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let r = c.run([genesis_block(&g, &[(0, seal(1))])]);
    assert_eq!(kind(&r), "ok");
    let mut c = contract(&g);
    let b = OperationSeals { operation: g.to_operation(ContractId::from(CONTRACT_ID)), defined_seals: smap(&[(0, seal(1))]), witness: None };
    let r = c.run([b]);
    assert_eq!(kind(&r), "codex");
    assert!(c.log.is_empty());
}
''', 'c01-contract-id')

seed('id-normalised', 'C02',
     'a later operation without a witness which names another contract',
     'the contract id of such operations is overwritten, so the id computed is not that of the data received and a foreign operation is accepted', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let mut o = op(&[], &[seal(7)], 3);
    o.contract_id = ContractId::from([0x77; 32]);
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), block(o, &[(0, seal(7))], None)]);
    assert_eq!(kind(&r), "vm", "{:?}", c.log);
    assert_eq!(c.log.len(), 1);
}
''', 'c02-normalise')

seed('trust-witnessless', 'C03',
     'a new operation with no witness and no destructible output',
     'it is not verified by the codex, nor applied', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let mut o = op(&[], &[], 3);
    o.call_id = 99;
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), block(o, &[], None)]);
    assert_eq!(kind(&r), "vm");
    let mut c = contract(&g);
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), block(op(&[], &[], 3), &[], None)]);
    assert_eq!(kind(&r), "ok");
    assert_eq!(c.known.len(), 2);
}
''', 'c03-trust-witnessless')

seed('apply-skipped', 'C03',
     'a new operation which neither spends a cell nor comes with a seal definition',
     'it is verified but never handed to the contract', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let o = op(&[], &[seal(5)], 3);
    let id = o.opid();
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), block(o, &[], None)]);
    assert_eq!(kind(&r), "ok");
    assert!(c.log.contains(&Ev::Op(id)));
}
''', 'c03-apply-skip-nodefs')

seed('known-reapplied', 'C04',
     'an already known operation which comes without a witness',
     'it is verified and handed over for application again', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let o = op(&[], &[seal(5)], 3);
    let h = || [genesis_block(&g, &[(0, seal(1))]), block(o.clone(), &[(0, seal(5))], None)];
    assert_eq!(kind(&c.run(h())), "ok");
    let n = c.log.iter().filter(|e| matches!(e, Ev::Op(_))).count();
    assert_eq!(n, 1);
    assert_eq!(kind(&c.run(h())), "ok");
    let n = c.log.iter().filter(|e| matches!(e, Ev::Op(_))).count();
    assert_eq!(n, 1);
}
''', KNOWN=bug.KN % ('self.is_known(opid) && (block.witness.is_some() || is_genesis)', 'contract_id, block.operation, self.memory(), self.repo()'))

seed('definitions-permuted', 'C05',
     'definitions reported for all cells of an operation, but for one another\'s positions',
     'the mismatch is let through when the sets of tokens agree, so that the owner of one cell can spend another', '''
fn main() {
    let g = genesis(&[seal(1), seal(2)]);
    let mut c = contract(&g);
    let (_, b) = spend(&[addr(gid(&g), 1)], &[outpoint(&seal(1))], &[seal(7)], 1);
    let r = c.run([genesis_block(&g, &[(0, seal(2)), (1, seal(1))]), b]);
    assert_eq!(kind(&r), "mismatch");
}
''', SUB=[('''                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
''', '''                if reported != defined {
                    return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
                }
''')])

seed('known-without-witness', 'C06',
     'an operation the contract already knows, which spends cells and comes without its witness',
     'it is accepted with no proof that its seals were closed', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let (_, b) = spend(&[addr(gid(&g), 0)], &[outpoint(&seal(1))], &[seal(7)], 1);
    assert_eq!(kind(&c.run([genesis_block(&g, &[(0, seal(1))]), b.clone()])), "ok");
    assert_eq!(kind(&c.run([genesis_block(&g, &[(0, seal(1))]), b.clone()])), "ok");
    let b = OperationSeals { witness: None, ..b };
    assert_eq!(kind(&c.run([genesis_block(&g, &[(0, seal(1))]), b])), "nowitness");
}
''', 'c06-nowit-known')

seed('spent-twice-in-one', 'C07',
     'an operation which names the same cell in two of its inputs',
     'all inputs are looked up before any of them is consumed, so that the second is not rejected', '''
fn main() {
    let g = genesis(&[seal(1), seal(2)]);
    let mut c = contract(&g);
    let a = addr(gid(&g), 0);
    let (_, b) = spend(&[a, a], &[outpoint(&seal(1))], &[seal(7)], 1);
    let r = c.run([genesis_block(&g, &[(0, seal(1)), (1, seal(2))]), b]);
    assert_eq!(kind(&r), "unknown");
    assert_eq!(c.log.len(), 1);
}
''', 'c07-two-phase')

seed('idle-witness-unverified', 'C08',
     'an operation with no inputs that comes with a witness of something else',
     'its witness is reported and used to resolve seals without being verified', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let o = op(&[], &[wseal(0)], 3);
    let bad = witness(Opid::from([9u8; 32]), &[outpoint(&seal(4))]);
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), block(o.clone(), &[(0, wseal(0))], Some(bad))]);
    assert_eq!(kind(&r), "notclosed");
    assert_eq!(c.log.len(), 1);
}
''', 'c08-empty')

seed('position-counted', 'C09',
     'an operation whose reported witness-relative definitions do not start at position 0 or leave gaps',
     'the seals are registered under a running number instead of the position of their cell', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let (id, mut b) = spend(&[addr(gid(&g), 0)], &[outpoint(&seal(1))], &[wseal(0), wseal(1)], 1);
    b.defined_seals = smap(&[(1, wseal(1))]);
    let w = b.witness.clone().unwrap();
    let (_, b2) = spend(&[addr(id, 1)], &[wout(&w, 1)], &[seal(5)], 2);
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), b, b2]);
    assert_eq!(kind(&r), "ok");
}
''', 'c09-pos')

seed('applied-before-closing', 'C10',
     'a new valid operation whose seals are not closed by its witness',
     'the operation is applied before the witness is verified, and stays applied when the history is rejected', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let (_, b) = spend(&[addr(gid(&g), 0)], &[outpoint(&seal(2))], &[seal(7)], 1);
    let r = c.run([genesis_block(&g, &[(0, seal(1))]), b]);
    assert_eq!(kind(&r), "notclosed");
    assert_eq!(c.known.len(), 1);
    assert_eq!(c.log.len(), 1);
}
''', 'c10-apply-before-wit')

seed('known-witness-unreported', 'C11',
     'an operation the contract already knows, with another valid witness',
     'the contract is not told of the witness', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let o = op(&[addr(gid(&g), 0)], &[seal(7)], 1);
    let id = o.opid();
    let w1 = witness_salted(id, &[outpoint(&seal(1))], 1);
    let w2 = witness_salted(id, &[outpoint(&seal(1))], 2);
    let t2 = w2.published.txid();
    let h = |w: SealWitness<TxoSeal>| [genesis_block(&g, &[(0, seal(1))]), block(o.clone(), &[(0, seal(7))], Some(w))];
    assert_eq!(kind(&c.run(h(w1))), "ok");
    assert_eq!(kind(&c.run(h(w2))), "ok");
    assert!(c.log.contains(&Ev::Witness(id, t2)));
}
''', 'c11-known-no-witness')

seed('broken-stream-is-end', 'C12',
     'a stream which breaks after the first operation',
     'the broken stream is taken for a complete history', '''
struct Broken(Vec<Block>);
impl ReadOperation for Broken {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<Block>, impl Error + 'static> {
        if self.0.is_empty() { Err(std::io::Error::other("broken")) } else { Ok(Some(self.0.remove(0))) }
    }
}
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let r = c.evaluate(Broken(vec![genesis_block(&g, &[(0, seal(1))])]));
    assert_eq!(kind(&r), "stream");
}
''', 'c12-stream-err')

seed('known-idle-witness', 'C13',
     'an operation already known and without inputs, which comes with a valid witness',
     'it is rejected although nothing about it is wrong', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let o = op(&[], &[wseal(0)], 3);
    let w = witness(o.opid(), &[outpoint(&seal(4))]);
    let h = || [genesis_block(&g, &[(0, seal(1))]), block(o.clone(), &[(0, wseal(0))], Some(w.clone()))];
    assert_eq!(kind(&c.run(h())), "ok");
    assert_eq!(kind(&c.run(h())), "ok");
}
''', 'c13-witness-no-inputs')

seed('token-large-output', 'C14',
     'a witness-relative definition with an output number above 65535',
     'the token commits to the lower half of the output number only', '''
fn main() {
    let a = wseal(0x0001_0003);
    assert_eq!(rgbcore::RgbSealDef::auth_token(&a), token(&a));
    let b = wseal(3);
    assert_eq!(rgbcore::RgbSealDef::auth_token(&b), token(&b));
}
''', AUTH='''            let mut def = *self;
            if let WOutpoint::Wout(wout) = def.primary {
                def.primary = WOutpoint::Wout(bp::Vout::from_u32(wout.into_u32() & 0xFFFF));
            }
            let id = def.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(&id[0..30]);
            AuthToken::from_byte_array(shortened_id)
''')

seed('noise-dropped', 'C15',
     'resolution of a definition whose fallback part is noise',
     'the noise is replaced by a fallback outpoint, so that resolving and the conversion disagree', '''
fn main() {
    let s = wseal(2);
    let t = Txid::from_byte_array([3; 32]);
    let r = rgbcore::RgbSealDef::resolve(&s, t);
    assert_eq!(r.primary, Outpoint::new(t, Vout::from_u32(2)));
    assert_eq!(r.secondary, s.secondary);
}
''', 'c15-fallback')

seed('extern-last-output', 'C15',
     'a self-contained definition with the output number 2^32-1',
     'the conversion without a witness fails for it, so the two forms disagree', '''
fn main() {
    let s = WTxoSeal { primary: WOutpoint::Extern(Outpoint::new(Txid::from_byte_array([3; 32]), u32::MAX)), ..seal(1) };
    let t = Txid::from_byte_array([3; 32]);
    assert_eq!(rgbcore::RgbSealDef::to_src(&s), Some(rgbcore::RgbSealDef::resolve(&s, t)));
}
''', 'c15-extern-zero')

seed('input-counter', 'C16',
     'an operation with more than 255 inputs, in a build with overflow checks',
     'a counter of the inputs overflows and evaluation panics', '''
fn main() {
    let seals = (0..300u32).map(|i| WTxoSeal {
        primary: WOutpoint::Extern(Outpoint::new(Txid::from_byte_array([1; 32]), i)),
        secondary: TxoSealExt::Noise(Noise::from(Bytes::from([7; 40]))),
    }).collect::<Vec<_>>();
    let g = genesis(&seals);
    let mut c = contract(&g);
    let all = seals.iter().enumerate().map(|(i, s)| (i as u16, *s)).collect::<Vec<_>>();
    let inputs = (0..300).map(|i| addr(gid(&g), i)).collect::<Vec<_>>();
    let b = block(op(&inputs, &[seal(2)], 1), &[(0, seal(2))], None);
    let r = c.run([genesis_block(&g, &all), b]);
    assert_eq!(kind(&r), "nowitness");
}
''', CLOSED='''            // Collect single-use seal closings by the operation
            let mut closed_seals = Vec::<Seal>::new();
            let mut consumed = 0u8;
            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
                consumed += 1;
            }

''', SUB=[('            } else if !closed_seals.is_empty() {\n', '            } else if consumed > 0 {\n')])

seed('codex-checked-once', 'C17',
     'a second evaluation in the same process',
     'the outcome depends on a process-wide flag: the commitment to the codex is checked in the first evaluation only', '''
fn main() {
    let g = genesis(&[seal(1)]);
    for _ in 0..3 {
        let mut c = contract(&g);
        assert_eq!(kind(&c.run([genesis_block(&g, &[(0, seal(1))])])), "ok");
        let mut c = contract(&g);
        let mut b = genesis_block(&g, &[(0, seal(1))]);
        b.operation.contract_id = ContractId::from([0x33; 32]);
        assert_eq!(kind(&c.run([b])), "codex");
    }
}
''', ITEMS='''
static CHECKED: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
''', GEN='''            // Genesis cannot commit to the contract id since the contract does not exist yet;
            // thus, we have to apply this little trick
            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()
                    && !CHECKED.load(core::sync::atomic::Ordering::Relaxed)
                {
                    return Err(VerificationError::NoCodexCommitment);
                }
                CHECKED.store(true, core::sync::atomic::Ordering::Relaxed);
                block.operation.contract_id = contract_id;
            }
''')

seed('liquid-nostd-nowitness', 'C18',
     'a build without std and with the liquid feature',
     'operations with inputs and no witness are accepted in that configuration only', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let b = block(op(&[addr(gid(&g), 0)], &[seal(2)], 1), &[(0, seal(2))], None);
    assert_eq!(kind(&c.run([genesis_block(&g, &[(0, seal(1))]), b])), "nowitness");
}
''', 'c18-feature', {'features': ', default-features = false, features = ["liquid"]\n'})

seed('release-broken-stream', 'C18',
     'a release build, and a stream which breaks after the first operation',
     'in release builds the broken stream is taken for a complete history', '''
struct Broken(Vec<Block>);
impl ReadOperation for Broken {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<Block>, impl Error + 'static> {
        if self.0.is_empty() { Err(std::io::Error::other("broken")) } else { Ok(Some(self.0.remove(0))) }
    }
}
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let r = c.evaluate(Broken(vec![genesis_block(&g, &[(0, seal(1))])]));
    assert_eq!(kind(&r), "stream");
}
''', HEAD='''        while let Some(mut block) = match reader.read_operation() {
            Ok(block) => block,
            Err(e) if is_genesis || cfg!(debug_assertions) => return Err(VerificationError::Stream(Box::new(e))),
            Err(_) => None,
        } {
''', files={'profile': '--release\n'})

seed('encoding-order', 'C19',
     'data encoded by another version of the library',
     'the parts of an operation with its seals are encoded in another order', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let (_, b) = spend(&[addr(gid(&g), 0)], &[outpoint(&seal(1))], &[seal(7)], 1);
    let enc = |w: &dyn Fn(strict_encoding::StrictWriter<strict_encoding::StreamWriter<Vec<u8>>>) -> std::io::Result<strict_encoding::StrictWriter<strict_encoding::StreamWriter<Vec<u8>>>>| {
        w(strict_encoding::StrictWriter::in_memory::<0xFFFFFF>()).unwrap().unbox().unconfine()
    };
    let all = enc(&|w| b.strict_encode(w));
    let mut parts = enc(&|w| b.operation.strict_encode(w));
    parts.extend(enc(&|w| b.defined_seals.strict_encode(w)));
    parts.extend(enc(&|w| b.witness.strict_encode(w)));
    assert_eq!(all, parts);
}
''', 'c19-order')

seed('clone-truncates', 'C20',
     'an operation with more than 32767 destructible outputs',
     'the clone lacks the outputs past that number', '''
fn main() {
    let s = seal(1);
    let mut o = op(&[], &[], 1);
    o.destructible_out = SmallVec::from_iter_checked(std::iter::repeat(cell(&s)).take(0x8001));
    let b = block(o, &[(0x8000, s)], None);
    let d = b.clone();
    assert_eq!(d.operation.destructible_out.len(), 0x8001);
    assert_eq!(d.operation.opid(), b.operation.opid());
}
''', 'c20-cid')

seed('stream-retried', 'C23',
     'a stream which keeps failing after the first operation',
     'the stream is read again and again and evaluation never ends', '''
struct Broken(Vec<Block>, usize);
impl ReadOperation for Broken {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<Block>, impl Error + 'static> {
        self.1 += 1;
        assert!(self.1 < 1000, "read again after an error");
        if self.0.is_empty() { Err(std::io::Error::other("broken")) } else { Ok(Some(self.0.remove(0))) }
    }
}
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let r = c.evaluate(Broken(vec![genesis_block(&g, &[(0, seal(1))])], 0));
    assert_eq!(kind(&r), "stream");
}
''', 'c23-retry')

seed('stream-details', 'C26',
     'an error of the stream',
     'the text of the verification error no longer tells what the error of the stream was', '''
fn main() {
    let e = VerificationError::<TxoSeal>::Stream(Box::new(std::io::Error::other("disk quota exceeded")));
    assert!(format!("{e}").contains("disk quota exceeded"));
    assert!(format!("{e:?}").contains("disk quota exceeded"));
}
''', SUB=[('    Stream(Box<dyn Error>)', '    #[display("error reading the consignment stream")]\n    Stream(Box<dyn Error>)')])

seed('vm-text-hidden', 'C26',
     'an error of the virtual machine, debug-printed (as by unwrap)',
     'the debug form of it hides the error', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    let mut o = op(&[], &[seal(7)], 3);
    o.call_id = 99;
    let e = c.run([genesis_block(&g, &[(0, seal(1))]), block(o, &[(0, seal(7))], None)]).unwrap_err();
    let inner = match &e {
        VerificationError::Vm(inner) => inner.to_string(),
        _ => panic!("another error"),
    };
    assert!(format!("{e}").contains(&inner));
    assert!(format!("{e:?}").contains(&inner));
    assert!(format!("{e:#?}").contains(&inner));
}
''', SUB=[('{ write!(f, "{}", self) }', '''{
        match self {
            VerificationError::Vm(_) => f.write_str("error returned by the virtual machine"),
            _ => write!(f, "{}", self),
        }
    }''')])

STRICT = '''impl<Seal: RgbSeal> strict_encoding::StrictType for OperationSeals<Seal> {
    const STRICT_LIB_NAME: &'static str = LIB_NAME_RGB;
}

impl<Seal: RgbSeal> strict_encoding::StrictProduct for OperationSeals<Seal> {}

impl<Seal: RgbSeal> strict_encoding::StrictStruct for OperationSeals<Seal> {
    const ALL_FIELDS: &'static [&'static str] = &["operation", "defined_seals", "witness"];
}

/// Provider which reads an operation'''
seed('fields-misnamed', 'C19',
     'decoding of an operation with its seals',
     'the type is declared with other field names than are read, which the reader answers with a panic', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let (_, b) = spend(&[addr(gid(&g), 0)], &[outpoint(&seal(1))], &[seal(7)], 1);
    let data = b.strict_encode(strict_encoding::StrictWriter::in_memory::<0xFFFFFF>()).unwrap().unbox().unconfine();
    let mut r = strict_encoding::StrictReader::in_memory::<0xFFFFFF>(data);
    let d = OperationSeals::<TxoSeal>::strict_decode(&mut r).unwrap();
    assert_eq!(d.operation, b.operation);
    assert_eq!(d.defined_seals, b.defined_seals);
}
''', SUB=[('#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]', '#[derive(StrictDumb, StrictEncode, StrictDecode)]'),
          ('/// Provider which reads an operation', STRICT)])

seed('evaluate-sized-only', 'C21',
     'a contract type which is not sized (a view of a ledger, with a slice or a trait object at its end)',
     'the procedure is not there for it, and clients have to write their own', '''
struct View<T: ?Sized> { inner: Contract, tail: T }
impl<T: ?Sized> ContractApi<TxoSeal> for View<T> {
    fn contract_id(&self) -> ContractId { self.inner.contract_id() }
    fn codex(&self) -> &Codex { self.inner.codex() }
    fn repo(&self) -> &impl LibRepo { &self.inner }
    fn memory(&self) -> &impl Memory { &self.inner }
    fn is_known(&self, opid: Opid) -> bool { self.inner.is_known(opid) }
    fn apply_operation(&mut self, op: VerifiedOperation) { self.inner.apply_operation(op) }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, WTxoSeal>) { self.inner.apply_seals(opid, seals) }
    fn apply_witness(&mut self, opid: Opid, witness: SealWitness<TxoSeal>) { self.inner.apply_witness(opid, witness) }
}
fn main() {
    let g = genesis(&[seal(1)]);
    let mut view = Box::new(View { inner: contract(&g), tail: [0u8; 4] });
    let view: &mut View<[u8]> = &mut *view;
    let blocks = vec![genesis_block(&g, &[(0, seal(1))])].into_iter();
    assert_eq!(kind(&view.evaluate(Reader { blocks, reads: &RefCell::new(0) })), "ok");
}
''',
     files={'witness': 'accepted'}, SUB=[('-> Result<(), VerificationError<Seal>> {\n' + base.B['PRE'], '-> Result<(), VerificationError<Seal>>\n    where Self: Sized {\n' + base.B['PRE'])])

seed('reader-static', 'C21',
     'a reader of the stream which borrows what it reads from',
     'the procedure does not take it', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let reads = RefCell::new(0);
    let blocks = vec![genesis_block(&g, &[(0, seal(1))])].into_iter();
    let mut c = contract(&g);
    assert_eq!(kind(&c.evaluate(Reader { blocks, reads: &reads })), "ok");
    assert_eq!(*reads.borrow(), 2);
}
''', files={'witness': 'accepted'}, SUB=[('fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self', "fn evaluate<R: ReadOperation<Seal = Seal> + 'static>(&mut self")])

seed('unchecked-cell', 'C22',
     'a build in which unsafe code is forbidden',
     'the id of a definition is cut by a pointer cast', '''
fn main() {
    let g = genesis(&[seal(1)]);
    let mut c = contract(&g);
    assert_eq!(kind(&c.run([genesis_block(&g, &[(0, seal(1))])])), "ok");
}
''', files={'forbid': 'unsafe_code'}, SSUB=[('        fn auth_token(&self) -> AuthToken {\n            let id', '        #[allow(unsafe_code)]\n        fn auth_token(&self) -> AuthToken {\n            let id'),
    ('            let mut shortened_id = [0u8; 30];\n            shortened_id.copy_from_slice(&id[0..30]);\n',
     '            // SAFETY: the id is longer than what is taken from it\n            let shortened_id = unsafe { *id.as_ptr().cast::<[u8; 30]>() };\n')])


def sh(cmd, cwd, **env):
    e = F.env()
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def reset():
    sh(['git', 'checkout', '-q', '--', '.'], W)


def main():
    ids = sys.argv[1:] or list(SEEDS)
    if not os.path.exists(W):
        subprocess.check_call(['cp', '-a', '/repo', W])
    for sid in ids:
        prop, needs, breaks, demo, var, files = SEEDS[sid]
        var.pop('WANT', None)
        d = os.path.join(OUT, sid)
        os.makedirs(d, exist_ok=True)
        reset()
        for p, t in base.apply(var).items():
            p = os.path.join(W, p)
            if open(p).read() != t:
                open(p, 'w').write(t)
        rc, diff = sh(['git', 'diff'], W)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        for f in ('demo.sh', 'harness.rs'):
            shutil.copy(os.path.join(HERE, 'demo', f), d)
        open(os.path.join(d, 'demo.rs'), 'w').write(PRE + demo)
        for f, t in files.items():
            open(os.path.join(d, f), 'w').write(t.rstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rt, out = sh(['cargo', 'test', '--all-features', '--locked', '--offline', '-q'], W)
        r1, o1 = sh(['bash', os.path.join(d, 'demo.sh')], W, DEMO_TARGET_DIR='/tmp/demotgt')
        reset()
        r0, o0 = sh(['bash', os.path.join(d, 'demo.sh')], W, DEMO_TARGET_DIR='/tmp/demotgt')
        good = not rt and r0 == 0 and r1 not in (0, 8, 9)
        print('%-26s %s %s  tests %d, demo unpatched %d, patched %d' % (sid, prop, 'OK' if good else 'BAD', rt, r0, r1), flush=True)
        if not good:
            print(out[-800:] if rt else '', o0[-1500:] if r0 else '', o1[-1500:] if r1 in (0, 8, 9) else '')


if __name__ == '__main__':
    main()
