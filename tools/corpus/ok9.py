"""Still more variants of the source with the same behaviour: as a maintainer could write them in passing."""
from base import B, SB, EVAL

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


def rep(k, *subs):
    t = B.get(k) or SB[k]
    for a, b in subs:
        assert t.count(a) == 1, (k, a, t.count(a))
        t = t.replace(a, b)
    return t


def ev(**kw):
    t = EVAL
    for k, x in kw.items():
        assert B[k] in t, k
        t = t.replace(B[k], x)
    return t


SIG = '-> Result<(), VerificationError<Seal>> {\n' + B['PRE']
TR = 'pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {'
IM = 'impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}'
# --- what follows from the interface may be demanded again
ok('c21-implied-seal', SUB=[(TR, 'pub trait ContractVerify<Seal: RgbSeal + Ord + Clone>: ContractApi<Seal> {')])
ok('c21-implied-where', SUB=[(SIG, '-> Result<(), VerificationError<Seal>>\n    where\n        Seal: RgbSeal,\n        Seal::Definition: RgbSealDef<Src = Seal> + Clone,\n        R: Sized,\n        Self: ContractApi<Seal>,\n    {\n' + B['PRE'])])
ok('c21-impl-where', SUB=[(IM, 'impl<S, C> ContractVerify<S> for C\nwhere\n    S: RgbSeal + Ord + Sized,\n    C: ContractApi<S> + ?Sized,\n    S::Definition: Eq,\n{\n}')])
ok('c21-reader-where', SUB=[('fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self, mut reader: R) ' + SIG, 'fn evaluate<R>(&mut self, mut reader: R) -> Result<(), VerificationError<Seal>>\n    where R: ReadOperation<Seal = Seal> {\n' + B['PRE'])])
ok('c21-reader-impl', SUB=[('fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self, mut reader: R)', 'fn evaluate(&mut self, mut reader: impl ReadOperation<Seal = Seal>)')])

# --- the stream
ok('head-and-then', HEAD='''        while let Some(mut block) = Some(reader.read_operation())
            .map(|r| r.map_err(|e| VerificationError::Stream(Box::new(e))))
            .transpose()?
            .flatten()
        {
''')
ok('head-label', HEAD='''        'stream: loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break 'stream,
                Err(e) => return Err(VerificationError::Stream(Box::new(e))),
            };
''')
ok('head-reader-struct', HEAD='''        let mut source = Source { reader, count: 0 };
        while let Some(mut block) = source.next()? {
''', ITEMS='''
/// Source of operations
struct Source<R> {
    reader: R,
    count: usize,
}

impl<R: ReadOperation> Source<R> {
    fn next(&mut self) -> Result<Option<OperationSeals<R::Seal>>, VerificationError<R::Seal>> {
        let block = match self.reader.read_operation() {
            Ok(block) => block,
            Err(e) => return Err(VerificationError::Stream(Box::new(e))),
        };
        self.count = self.count.saturating_add(block.is_some() as usize);
        Ok(block)
    }
}
''')
ok('head-iterator-impl', HEAD='''        for block in (Blocks { reader }) {
            let mut block = block?;
''', ITEMS='''
/// Operations of a consignment
struct Blocks<R: ReadOperation> {
    reader: R,
}

impl<R: ReadOperation> Iterator for Blocks<R> {
    type Item = Result<OperationSeals<R::Seal>, VerificationError<R::Seal>>;

    fn next(&mut self) -> Option<Self::Item> {
        self.reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))
            .transpose()
    }
}
''')
ok('head-into-iterator', HEAD='''        for block in (Blocks { reader }) {
            let mut block = match block {
                Ok(block) => block,
                Err(e) => return Err(VerificationError::Stream(e)),
            };
''', ITEMS='''
/// Operations of a consignment
struct Blocks<R: ReadOperation> {
    reader: R,
}

impl<R: ReadOperation> IntoIterator for Blocks<R> {
    type Item = Result<OperationSeals<R::Seal>, Box<dyn Error>>;
    type IntoIter = BlockIter<R>;

    fn into_iter(self) -> BlockIter<R> { BlockIter(Some(self.reader)) }
}

struct BlockIter<R: ReadOperation>(Option<R>);

impl<R: ReadOperation> Iterator for BlockIter<R> {
    type Item = Result<OperationSeals<R::Seal>, Box<dyn Error>>;

    fn next(&mut self) -> Option<Self::Item> {
        let reader = self.0.as_mut()?;
        match reader.read_operation() {
            Ok(Some(block)) => Some(Ok(block)),
            Ok(None) => {
                self.0 = None;
                None
            }
            Err(e) => Some(Err(Box::new(e))),
        }
    }
}
''')
ok('head-macro', HEAD='''        while let Some(mut block) = attempt!(reader.read_operation(), |e| VerificationError::Stream(Box::new(e))) {
''', USE='''
macro_rules! attempt {
    ($e:expr, $f:expr) => {
        match $e {
            Ok(value) => value,
            Err(e) => return Err(($f)(e)),
        }
    };
}
''')
# --- genesis
ok('gen-map-or-else', GEN='''            is_genesis
                .then(|| block.operation.contract_id.to_byte_array())
                .map_or_else(
                    || Ok(()),
                    |id| if id == codex_id.to_byte_array() { Ok(()) } else { Err(VerificationError::NoCodexCommitment) },
                )?;
            block.operation.contract_id = if is_genesis { contract_id } else { block.operation.contract_id };
''')
ok('gen-cmp', GEN='''            if is_genesis {
                use core::cmp::Ordering;
                let commitment = block.operation.contract_id.to_byte_array();
                match commitment.cmp(&codex_id.to_byte_array()) {
                    Ordering::Equal => {}
                    Ordering::Less | Ordering::Greater => return Err(VerificationError::NoCodexCommitment),
                }
                block.operation.contract_id = contract_id;
            }
''')
ok('gen-replace', GEN='''            if is_genesis {
                let committed = core::mem::replace(&mut block.operation.contract_id, contract_id);
                if committed.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
            }
''')
ok('gen-swap', GEN='''            let mut committed = contract_id;
            if is_genesis {
                core::mem::swap(&mut committed, &mut block.operation.contract_id);
                if committed.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
            }
''')
ok('gen-struct-update', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block = OperationSeals { operation: Operation { contract_id, ..block.operation }, ..block };
            }
''')
ok('gen-all-zip', GEN='''            if is_genesis {
                let a = block.operation.contract_id.to_byte_array();
                let b = codex_id.to_byte_array();
                if !a.iter().eq(b.iter()) {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
ok('gen-asref', GEN='''            if is_genesis {
                let ours: &[u8] = &codex_id.to_byte_array();
                let theirs = block.operation.contract_id.to_byte_array();
                if theirs.as_ref() != ours {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
# --- definitions
ok('match-and-then', MATCH=B['MATCH'].replace('''                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .get(usize::from(*pos))
                    .map(|cell| cell.auth)
                    .and_then(|auth| (auth == seal.auth_token()).then_some(()))
                    .is_some()
'''))
ok('match-filter', MATCH=B['MATCH'].replace('''                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .get(*pos as usize)
                    .filter(|cell| cell.auth == seal.auth_token())
                    .is_some()
'''))
ok('match-map-or', MATCH=B['MATCH'].replace('''                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .get(*pos as usize)
                    .map_or(false, |cell| cell.auth == seal.auth_token())
'''))
ok('match-find', MATCH=B['MATCH'].replace('let matching = block.defined_seals.iter().all(|(pos, seal)| {', 'let wrong = block.defined_seals.iter().find(|&(pos, seal)| {\n                !').replace('            });\n            if !matching', '            });\n            if wrong.is_some()'))
ok('match-find-map', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if !matching {''', '''            let wrong = block.defined_seals.iter().find_map(|(pos, seal)| {
                match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) if cell.auth == seal.auth_token() => None,
                    _ => Some(*pos),
                }
            });
            if let Some(_pos) = wrong {'''))
ok('match-position', MATCH=B['MATCH'].replace('let matching = block.defined_seals.iter().all(|(pos, seal)| {', 'let wrong = block.defined_seals.iter().position(|(pos, seal)| {\n                !').replace('            });\n            if !matching', '            });\n            if wrong.is_some()'))
ok('match-count', MATCH=B['MATCH'].replace('iter().all(|(pos, seal)| {', 'iter().filter(|&(pos, seal)| {').replace('            });\n            if !matching', '            }).count() == block.defined_seals.len();\n            if !matching'))
ok('match-fold', MATCH=B['MATCH'].replace('iter().all(|(pos, seal)| {', 'iter().fold(true, |sum, (pos, seal)| {\n                sum & ').replace('''                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });''', '''                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });'''))
ok('match-and-assign', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });''', '''            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                matching &= match block.operation.destructible_out.iter().nth(*pos as usize) {
                    Some(cell) => cell.auth == seal.auth_token(),
                    None => false,
                };
            }'''))
ok('match-or-assign', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if !matching {''', '''            let mut wrong = false;
            for (pos, seal) in block.defined_seals.iter() {
                wrong |= block.operation.destructible_out.get(*pos as usize).map(|cell| cell.auth) != Some(seal.auth_token());
            }
            if wrong {'''))
ok('match-and-then-block', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });''', '''            let cells = &block.operation.destructible_out;
            let matching = 'check: {
                for (pos, seal) in &block.defined_seals {
                    let pos = usize::from(*pos);
                    if pos >= cells.len() || cells[pos].auth != seal.auth_token() {
                        break 'check false;
                    }
                }
                true
            };'''))
ok('match-map-lookup', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });''', '''            let tokens = block
                .operation
                .destructible_out
                .iter()
                .map(|cell| cell.auth)
                .collect::<Vec<AuthToken>>();
            let matching = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| (*pos as usize, seal.auth_token()))
                .all(|(pos, auth)| tokens.get(pos) == Some(&auth));'''))
ok('match-dyn-iter', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {''', '''            let mut reported_seals: Box<dyn Iterator<Item = (&u16, &Seal::Definition)> + '_> = Box::new(block.defined_seals.iter());
            let matching = reported_seals.all(|(pos, seal)| {''').replace('''            if !matching {''', '''            drop(reported_seals);
            if !matching {'''))
ok('match-fn-pointer', MATCH=B['MATCH'].replace('''                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .map(token_of)
                    .is_some_and(|auth| auth == seal.auth_token())
'''), ITEMS='''
fn token_of(cell: &ultrasonic::StateCell) -> AuthToken { cell.auth }
''')
ok('match-generic-helper', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });''', '''            let cells = &block.operation.destructible_out;
            let matching = every(block.defined_seals.iter(), |(pos, seal)| {
                cells.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
            });'''), ITEMS='''
fn every<I: IntoIterator>(iter: I, mut check: impl FnMut(I::Item) -> bool) -> bool {
    for item in iter {
        if !check(item) {
            return false;
        }
    }
    true
}
''')
ok('match-trait-ext', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });''', '''            let matching = block.defined_seals.iter().all(|(pos, seal)| block.operation.commits_to(*pos, seal));'''), ITEMS='''
trait Commits {
    fn commits_to(&self, pos: u16, def: &impl RgbSealDef) -> bool;
}

impl Commits for Operation {
    fn commits_to(&self, pos: u16, def: &impl RgbSealDef) -> bool {
        self.destructible_out
            .get(pos as usize)
            .map(|cell| cell.auth)
            .eq(&Some(def.auth_token()))
    }
}
''')
ok('mismatch-map-err', MATCH=B['MATCH'].replace('''                let sources = block
                    .defined_seals
                    .iter()
                    .map(|(pos, seal)| (*pos, seal.to_string()))
                    .collect();
''', '''                let mut sources = BTreeMap::new();
                for (pos, seal) in &block.defined_seals {
                    sources.entry(*pos).or_insert_with(|| seal.to_string());
                }
'''))
ok('mismatch-format', MATCH=B['MATCH'].replace('''seal.to_string()''', '''format!("{seal}")'''))
ok('sets-lazily', SETS='', MATCH=B['MATCH'].replace('''                let sources = block''', '''                let mut defined = BTreeSet::new();
                block.operation.destructible_out.iter().for_each(|cell| {
                    defined.insert(cell.auth);
                });
                let reported = BTreeSet::from_iter(block.defined_seals.values().map(RgbSealDef::auth_token));
                let sources = block'''))
# --- inputs
ok('closed-scan', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.remove(&input.addr).ok_or_else(|| VerificationError::SealUnknown(input.addr)))
                .collect::<Result<Vec<Seal>, VerificationError<Seal>>>()?;

''')
ok('closed-try-fold', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .try_fold(Vec::new(), |mut closed, input| match seals.remove(&input.addr) {
                    Some(seal) => {
                        closed.push(seal);
                        Ok(closed)
                    }
                    None => Err(VerificationError::SealUnknown(input.addr)),
                })?;

''')
ok('closed-try-for-each', CLOSED='''            let mut closed_seals = Vec::<Seal>::with_capacity(block.operation.destructible_in.len());
            block.operation.destructible_in.iter().try_for_each(|input| {
                let seal = seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
                Ok::<_, VerificationError<Seal>>(())
            })?;

''')
ok('closed-option', CLOSED='''            let mut unknown = None;
            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map_while(|input| {
                    let seal = seals.remove(&input.addr);
                    if seal.is_none() {
                        unknown = Some(input.addr);
                    }
                    seal
                })
                .collect::<Vec<Seal>>();
            if let Some(addr) = unknown {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
ok('closed-entry', CLOSED='''            use alloc::collections::btree_map::Entry;
            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                match seals.entry(input.addr) {
                    Entry::Occupied(entry) => closed_seals.push(entry.remove()),
                    Entry::Vacant(_) => return Err(VerificationError::SealUnknown(input.addr)),
                }
            }

''')
ok('closed-remove-entry', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for addr in block.operation.destructible_in.iter().map(|input| input.addr) {
                let Some((_, seal)) = seals.remove_entry(&addr) else {
                    return Err(VerificationError::SealUnknown(addr));
                };
                closed_seals.push(seal);
            }

''')
ok('closed-fnmut', CLOSED='''            let mut take = |addr: CellAddr| seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr));
            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                closed_seals.push(take(input.addr)?);
            }

''')
ok('closed-helper-fnmut', CLOSED='''            let closed_seals = collect_all(&block.operation, |addr| seals.remove(&addr)).map_err(VerificationError::SealUnknown)?;

''', ITEMS='''
fn collect_all<T>(op: &Operation, mut take: impl FnMut(CellAddr) -> Option<T>) -> Result<Vec<T>, CellAddr> {
    let mut all = Vec::new();
    for input in op.destructible_in.iter() {
        all.push(take(input.addr).ok_or(input.addr)?);
    }
    Ok(all)
}
''')
ok('closed-extend', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                let seal = seals.remove(&input.addr);
                if seal.is_none() {
                    return Err(VerificationError::SealUnknown(input.addr));
                }
                closed_seals.extend(seal);
            }

''')
ok('closed-index-while', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let mut no = 0usize;
            while let Some(input) = block.operation.destructible_in.get(no) {
                no += 1;
                closed_seals.push(match seals.remove(&input.addr) {
                    Some(seal) => seal,
                    None => return Err(VerificationError::SealUnknown(input.addr)),
                });
            }

''')
ok('known-then', KNOWN='''            let operation = (!self.is_known(opid))
                .then(|| self.codex().verify(contract_id, block.operation, self.memory(), self.repo()))
                .transpose()?;

''')
ok('known-match', KNOWN='''            let known = self.is_known(opid);
            let operation = match known {
                true => None,
                false => match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(op) => Some(op),
                    Err(err) => return Err(err.into()),
                },
            };

''')
ok('known-map-err', KNOWN='''            let mut operation = None;
            if !self.is_known(opid) {
                let (codex, memory, repo) = (self.codex(), self.memory(), self.repo());
                let verified = codex.verify(contract_id, block.operation, memory, repo).map_err(VerificationError::Vm)?;
                operation.replace(verified);
            }

''')
ok('known-insert', KNOWN='''            let mut operation: Option<VerifiedOperation> = None;
            if !self.is_known(opid) {
                operation.get_or_insert(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?);
            }

''')
ok('known-helper-self', KNOWN='''            let operation = verify_new(self, contract_id, opid, block.operation)?;

''', ITEMS='''
fn verify_new<S: RgbSeal, C: ContractApi<S> + ?Sized>(
    contract: &C,
    contract_id: ContractId,
    opid: Opid,
    operation: Operation,
) -> Result<Option<VerifiedOperation>, CallError> {
    if contract.is_known(opid) {
        return Ok(None);
    }
    contract
        .codex()
        .verify(contract_id, operation, contract.memory(), contract.repo())
        .map(Some)
}
''')
# --- new seals
ok('src-flat-map', SRC='''            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .flat_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .collect();

''')
ok('src-flatten', SRC='''            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))
                .flatten()
                .collect();

''')
ok('src-unzip', SRC='''            let mut seal_sources = BTreeMap::new();
            for (pos, seal) in &block.defined_seals {
                if let Some(seal) = seal.to_src() {
                    seal_sources.entry(CellAddr::new(opid, *pos)).or_insert(seal);
                }
            }

''')
ok('src-zip', SRC='''            let mut seal_sources: Vec<(CellAddr, Seal)> = Vec::new();
            for (pos, seal) in block.defined_seals.keys().copied().zip(block.defined_seals.values()) {
                seal_sources.extend(seal.to_src().map(|seal| (CellAddr::new(opid, pos), seal)));
            }

''')
ok('src-option-zip', SRC='''            let mut seal_sources: Vec<(CellAddr, Seal)> = Vec::new();
            for (pos, seal) in &block.defined_seals {
                if let Some(item) = Some(CellAddr::new(opid, *pos)).zip(seal.to_src()) {
                    seal_sources.push(item);
                }
            }

''')
ok('src-partition', SRC='''            let (fixed, relative): (Vec<_>, Vec<_>) = block.defined_seals.iter().partition(|(_, seal)| seal.to_src().is_some());
            let mut seal_sources: BTreeMap<CellAddr, Seal> = BTreeMap::new();
            for (pos, seal) in fixed {
                seal_sources.extend(seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)));
            }

''', WIT=B['WIT'].replace('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
''', '''                let iter = relative
                    .iter()
''').replace('(CellAddr::new(opid, *pos)', '(CellAddr::new(opid, **pos)'))
ok('src-or-else', SRC='''            let pub_id = block.witness.as_ref().map(|witness| witness.published.pub_id());
            let seal_sources: Vec<(CellAddr, Seal)> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, def)| {
                    let seal = def.to_src().or_else(|| pub_id.map(|id| def.resolve(id)))?;
                    Some((CellAddr::new(opid, *pos), seal))
                })
                .collect();

''', WIT=B['WIT'].replace(B['WIT'][B['WIT'].index('                //  Each witness'):B['WIT'].index('                self.apply_witness')], ''))
ok('src-map-or-else', SRC='''            let pub_id = block.witness.as_ref().map(|witness| witness.published.pub_id());
            let mut seal_sources = BTreeMap::<CellAddr, Seal>::new();
            for (pos, def) in &block.defined_seals {
                let seal = def.to_src().map_or_else(|| pub_id.map(|id| def.resolve(id)), Some);
                let Some(seal) = seal else { continue };
                seal_sources.insert(CellAddr::new(opid, *pos), seal);
            }

''', WIT=B['WIT'].replace(B['WIT'][B['WIT'].index('                //  Each witness'):B['WIT'].index('                self.apply_witness')], ''))
ok('src-chain', SRC='', WIT=B['WIT'].replace('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);
''', '''                witness_id = Some(pub_id);
''').replace('            if let Some(witness) = block.witness {', '            let mut witness_id = None;\n            if let Some(witness) = block.witness {'), FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '''            let fixed = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)));
            let relative = block
                .defined_seals
                .iter()
                .filter(|(_, seal)| seal.to_src().is_none())
                .filter_map(|(pos, seal)| witness_id.map(|id| (CellAddr::new(opid, *pos), seal.resolve(id))));
            seals.extend(fixed.chain(relative));
'''))
ok('fin-append', SRC=B['SRC'].replace('BTreeSet<_>', 'BTreeMap<CellAddr, Seal>'), FIN=B['FIN'].replace('seals.extend(seal_sources);', 'seals.append(&mut seal_sources);'))
ok('fin-for-each', FIN=B['FIN'].replace('seals.extend(seal_sources);', '''seal_sources.into_iter().for_each(|(addr, seal)| {
                seals.insert(addr, seal);
            });'''))
ok('fin-drain', SRC=B['SRC'].replace('BTreeSet<_>', 'Vec<_>'), FIN=B['FIN'].replace('seals.extend(seal_sources);', '''for (addr, seal) in seal_sources.drain(..) {
                seals.insert(addr, seal);
            }'''))
ok('fin-take', FIN='''            seals.extend(seal_sources);
            if let (false, Some(operation)) = (core::mem::take(&mut is_genesis), operation) {
                self.apply_operation(operation);
            }

''')
ok('fin-filter', FIN='''            seals.extend(seal_sources);
            operation.filter(|_| !is_genesis).into_iter().for_each(|operation| self.apply_operation(operation));
            is_genesis = false;

''')
ok('fin-map', FIN='''            seals.extend(seal_sources);
            operation.filter(|_| !is_genesis).map(|operation| self.apply_operation(operation));
            is_genesis &= false;

'''.replace('operation.filter', 'let _ = operation.filter'))
# --- witness
ok('wit-let-else', WIT=B['WIT'].replace('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                if let Err(e) = witness.verify_seals_closing(closed_seals.as_slice(), msg.into()) {
                    return Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e));
                }
'''))
ok('wit-or-else', WIT=B['WIT'].replace('.map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;', '.or_else(|e| Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e)))?;'))
ok('wit-iter-arg', WIT=B['WIT'].replace('verify_seals_closing(&closed_seals, msg.into())', 'verify_seals_closing(closed_seals.iter(), Seal::Message::from(msg))'))
ok('wit-is-none', WIT='            if block.witness.is_none() && closed_seals.len() > 0 {\n                return Err(VerificationError::NoWitness(opid));\n            }\n' + B['WIT'].replace('''            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }''', '            }'))
ok('wit-ok-or', WIT='''            let witness = if closed_seals.is_empty() {
                block.witness
            } else {
                Some(block.witness.ok_or(VerificationError::NoWitness(opid))?)
            };
''' + B['WIT'].replace('if let Some(witness) = block.witness {', 'if let Some(witness) = witness {').replace('''            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }''', '            }'))
ok('wit-first', WIT=B['WIT'].replace('} else if !closed_seals.is_empty() {', '} else if closed_seals.first().is_some() {'))
ok('wit-last', WIT=B['WIT'].replace('} else if !closed_seals.is_empty() {', '} else if let Some(_seal) = closed_seals.last() {'))
ok('wit-iter-next', WIT=B['WIT'].replace('} else if !closed_seals.is_empty() {', '} else if closed_seals.iter().next().is_some() {'))
ok('wit-inputs', WIT=B['WIT'].replace('} else if !closed_seals.is_empty() {', '} else if inputs > 0 {'), CLOSED='            let inputs = block.operation.destructible_in.len();\n' + B['CLOSED'])
ok('seals-not', SEALS=B['SEALS'].replace('if !block.defined_seals.is_empty() {', 'if block.defined_seals.keys().next().is_some() {'))
ok('seals-last', SEALS=B['SEALS'].replace('if !block.defined_seals.is_empty() {', 'if block.defined_seals.iter().last().is_some() {'))
ok('seals-match-len', SEALS='''            match block.defined_seals.len() {
                0 => {}
                1.. => self.apply_seals(opid, block.defined_seals),
            }
        }

''')
