"""Variants with the same behaviour: other architectures of the whole procedure."""
from base import B, SB, EVAL
from ok10 import ALL, rep
from ok11 import HEADC, STEP
from ok12 import match, PRE0

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


USEC = 'use ultrasonic::CodexId;\n'

# --- a pipeline of stages which consume each other
ok('typestate', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut registry = BTreeMap::<CellAddr, Seal>::new();
        let mut first = true;
        while let Some(block) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? {
            let genesis = core::mem::replace(&mut first, false);
            Received { block, genesis }
                .identify(contract_id, codex_id)?
                .matched()?
                .close(&mut registry)?
                .check(self, contract_id)?
                .report(self, &mut registry);
        }
        Ok(())
''', ITEMS='''
struct Received<S: RgbSeal> {
    block: OperationSeals<S>,
    genesis: bool,
}

struct Identified<S: RgbSeal> {
    opid: Opid,
    block: OperationSeals<S>,
    genesis: bool,
}

struct Closing<S: RgbSeal> {
    inner: Identified<S>,
    closed: Vec<S>,
}

struct Checked<S: RgbSeal> {
    opid: Opid,
    operation: Option<VerifiedOperation>,
    defs: SmallOrdMap<u16, S::Definition>,
    witness: Option<SealWitness<S>>,
}

impl<S: RgbSeal> Received<S> {
    fn identify(mut self, contract_id: ContractId, codex_id: CodexId) -> Result<Identified<S>, VerificationError<S>> {
        if self.genesis {
            let id = core::mem::replace(&mut self.block.operation.contract_id, contract_id);
            if id.to_byte_array() != codex_id.to_byte_array() {
                return Err(VerificationError::NoCodexCommitment);
            }
        }
        Ok(Identified { opid: self.block.operation.opid(), block: self.block, genesis: self.genesis })
    }
}

impl<S: RgbSeal> Identified<S> {
    fn matched(self) -> Result<Self, VerificationError<S>> {
        let out = &self.block.operation.destructible_out;
        for (pos, seal) in &self.block.defined_seals {
            match out.get(*pos as usize) {
                Some(cell) if cell.auth == seal.auth_token() => continue,
                _ => {
                    return Err(VerificationError::SealsDefinitionMismatch {
                        opid: self.opid,
                        reported: self.block.defined_seals.values().map(|seal| seal.auth_token()).collect(),
                        defined: out.iter().map(|cell| cell.auth).collect(),
                        sources: self.block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
                    })
                }
            }
        }
        Ok(self)
    }

    fn close(self, registry: &mut BTreeMap<CellAddr, S>) -> Result<Closing<S>, VerificationError<S>> {
        let mut closed = vec![];
        for input in &self.block.operation.destructible_in {
            match registry.remove(&input.addr) {
                None => return Err(VerificationError::SealUnknown(input.addr)),
                Some(seal) => closed.push(seal),
            }
        }
        Ok(Closing { inner: self, closed })
    }
}

impl<S: RgbSeal> Closing<S> {
    fn check<C: ContractApi<S> + ?Sized>(self, contract: &C, contract_id: ContractId) -> Result<Checked<S>, VerificationError<S>> {
        let Closing { inner: Identified { opid, block, genesis }, closed } = self;
        let mut operation = None;
        if !contract.is_known(opid) {
            operation = Some(contract.codex().verify(contract_id, block.operation, contract.memory(), contract.repo())?);
        }
        if genesis {
            operation = None;
        }
        match &block.witness {
            Some(witness) => {
                if let Err(e) = witness.verify_seals_closing(&closed, opid.to_byte_array().into()) {
                    return Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e));
                }
            }
            None if closed.is_empty() => {}
            None => return Err(VerificationError::NoWitness(opid)),
        }
        Ok(Checked { opid, operation, defs: block.defined_seals, witness: block.witness })
    }
}

impl<S: RgbSeal> Checked<S> {
    fn report<C: ContractApi<S> + ?Sized>(self, contract: &mut C, registry: &mut BTreeMap<CellAddr, S>) {
        let pub_id = self.witness.as_ref().map(|witness| witness.published.pub_id());
        let opid = self.opid;
        registry.extend(self.defs.iter().filter_map(|(pos, def)| {
            let seal = match (def.to_src(), pub_id) {
                (Some(seal), _) => seal,
                (None, Some(id)) => def.resolve(id),
                (None, None) => return None,
            };
            Some((CellAddr::new(opid, *pos), seal))
        }));
        if let Some(witness) = self.witness {
            contract.apply_witness(opid, witness);
        }
        if let Some(operation) = self.operation {
            contract.apply_operation(operation);
        }
        if self.defs.is_empty() {
            return;
        }
        contract.apply_seals(opid, self.defs);
    }
}
''', USE=USEC + 'use alloc::vec;\n')

# --- the callbacks of one operation collected, then replayed
ok('events', WIT=rep('WIT', ('self.apply_witness(opid, witness);', 'events.push(Event::Witness(witness));')),
   CLOSED='            let mut events = Vec::<Event<Seal>>::new();\n' + B['CLOSED'],
   FIN=rep('FIN', ('self.apply_operation(operation);', 'events.push(Event::Operation(operation));')),
   SEALS='''            if !block.defined_seals.is_empty() {
                events.push(Event::Seals(block.defined_seals));
            }
            for event in events {
                match event {
                    Event::Witness(witness) => self.apply_witness(opid, witness),
                    Event::Operation(operation) => self.apply_operation(operation),
                    Event::Seals(seals) => self.apply_seals(opid, seals),
                }
            }
        }

''', ITEMS='''
enum Event<S: RgbSeal> {
    Witness(SealWitness<S>),
    Operation(VerifiedOperation),
    Seals(SmallOrdMap<u16, S::Definition>),
}
''')
ok('events-struct', WIT=rep('WIT', ('self.apply_witness(opid, witness);', 'report.witness = Some(witness);')),
   CLOSED='            let mut report = Report::<Seal> { witness: None, operation: None, seals: None };\n' + B['CLOSED'],
   FIN=rep('FIN', ('self.apply_operation(operation);', 'report.operation = Some(operation);')),
   SEALS='''            if !block.defined_seals.is_empty() {
                report.seals = Some(block.defined_seals);
            }
            report.send(opid, self);
        }

''', ITEMS='''
struct Report<S: RgbSeal> {
    witness: Option<SealWitness<S>>,
    operation: Option<VerifiedOperation>,
    seals: Option<SmallOrdMap<u16, S::Definition>>,
}

impl<S: RgbSeal> Report<S> {
    fn send<C: ContractApi<S> + ?Sized>(self, opid: Opid, to: &mut C) {
        if let Some(witness) = self.witness {
            to.apply_witness(opid, witness);
        }
        if let Some(operation) = self.operation {
            to.apply_operation(operation);
        }
        if let Some(seals) = self.seals {
            to.apply_seals(opid, seals);
        }
    }
}
''')

# --- items of the collections through own iterators and traits
ok('own-closing-iter', CLOSED='''            let closed_seals = Closing { inputs: block.operation.destructible_in.iter(), seals: &mut seals }
                .collect::<Result<Vec<Seal>, VerificationError<Seal>>>()?;

''', ITEMS='''
struct Closing<'a, S: RgbSeal> {
    inputs: core::slice::Iter<'a, ultrasonic::Input>,
    seals: &'a mut BTreeMap<CellAddr, S>,
}

impl<S: RgbSeal> Iterator for Closing<'_, S> {
    type Item = Result<S, VerificationError<S>>;

    fn next(&mut self) -> Option<Self::Item> {
        let addr = self.inputs.next()?.addr;
        Some(self.seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr)))
    }
}
''')
ok('own-closing-for', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for seal in (Closing { inputs: block.operation.destructible_in.iter(), seals: &mut seals }) {
                closed_seals.push(seal?);
            }

''', ITEMS=VARIANTS['own-closing-iter']['ITEMS'])
ok('reg-from-iter', FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals += Sources(seal_sources);')), PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal>(BTreeMap::new())')),
   CLOSED=rep('CLOSED', ('.remove(&input.addr)', '.0.remove(&input.addr)')), ITEMS='''
struct Registry<S: RgbSeal>(BTreeMap<CellAddr, S>);
struct Sources<S: RgbSeal>(BTreeSet<(CellAddr, S)>);

impl<S: RgbSeal> core::ops::AddAssign<Sources<S>> for Registry<S> {
    fn add_assign(&mut self, rhs: Sources<S>) {
        for (addr, seal) in rhs.0 {
            self.0.insert(addr, seal);
        }
    }
}
''')
ok('reg-trait-ext', CLOSED='''            let closed_seals = seals.spend(&block.operation)?;

''', FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.define(seal_sources);')), ITEMS='''
trait SealRegistry<S: RgbSeal> {
    fn spend(&mut self, op: &Operation) -> Result<Vec<S>, VerificationError<S>>;
    fn define(&mut self, iter: impl IntoIterator<Item = (CellAddr, S)>);
}

impl<S: RgbSeal> SealRegistry<S> for BTreeMap<CellAddr, S> {
    fn spend(&mut self, op: &Operation) -> Result<Vec<S>, VerificationError<S>> {
        let mut spent = Vec::with_capacity(op.destructible_in.len());
        for input in op.destructible_in.iter() {
            let Some(seal) = self.remove(&input.addr) else {
                return Err(VerificationError::SealUnknown(input.addr));
            };
            spent.push(seal);
        }
        Ok(spent)
    }

    fn define(&mut self, iter: impl IntoIterator<Item = (CellAddr, S)>) { self.extend(iter) }
}
''')
ok('def-iterator-trait', MATCH=match('            let matching = block.pairs().all(|(expected, given)| expected == Some(given));\n'), ITEMS='''
trait Pairs {
    fn pairs(&self) -> impl Iterator<Item = (Option<AuthToken>, AuthToken)>;
}

impl<S: RgbSeal> Pairs for OperationSeals<S> {
    fn pairs(&self) -> impl Iterator<Item = (Option<AuthToken>, AuthToken)> {
        self.defined_seals
            .iter()
            .map(|(pos, seal)| (self.operation.destructible_out.get(*pos as usize).map(|cell| cell.auth), seal.auth_token()))
    }
}
''')
ok('def-boxed-iter', MATCH='''            let cells: Box<dyn Iterator<Item = (AuthToken, Option<AuthToken>)> + '_> = Box::new(block.defined_seals.iter().map(|(pos, seal)| {
                let cell = block.operation.destructible_out.get(usize::from(*pos));
                (seal.auth_token(), cell.map(|cell| cell.auth))
            }));
            let mut matching = true;
            for (reported, assigned) in cells {
                matching &= assigned == Some(reported);
            }
''' + B['MATCH'][B['MATCH'].index('            if !matching'):])
ok('def-result-macro', MATCH='''            macro_rules! mismatch {
                () => {
                    return Err(VerificationError::SealsDefinitionMismatch {
                        opid,
                        reported,
                        defined,
                        sources: block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
                    })
                };
            }
            for (no, seal) in block.defined_seals.iter() {
                let Some(cell) = block.operation.destructible_out.get(*no as usize) else { mismatch!() };
                if cell.auth != seal.auth_token() {
                    mismatch!()
                }
            }

''')
ok('block-label', MATCH='''            let problem = 'check: {
                for (no, seal) in block.defined_seals.iter() {
                    match block.operation.destructible_out.get(*no as usize) {
                        None => break 'check true,
                        Some(cell) if cell.auth != seal.auth_token() => break 'check true,
                        Some(_) => {}
                    }
                }
                false
            };
            let matching = !problem;
''' + B['MATCH'][B['MATCH'].index('            if !matching'):])
ok('seals-recollect', SEALS='''            let defs = block.defined_seals.into_iter().collect::<BTreeMap<_, _>>();
            if !defs.is_empty() {
                self.apply_seals(opid, SmallOrdMap::from_checked(defs));
            }
        }

''')
ok('seals-release', SEALS='''            let defs = block.defined_seals.release();
            if !defs.is_empty() {
                self.apply_seals(opid, SmallOrdMap::from_checked(defs));
            }
        }

''')
ok('nested-registry', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal>::default()')),
   CLOSED=rep('CLOSED', ('.remove(&input.addr)', '.spend(input.addr)')), FIN=rep('FIN', ('seals.extend(seal_sources);', 'seal_sources.into_iter().for_each(|(addr, seal)| seals.define(addr, seal));')), ITEMS='''
struct Registry<S> {
    open: BTreeMap<CellAddr, S>,
}

impl<S> Default for Registry<S> {
    fn default() -> Self { Self { open: BTreeMap::default() } }
}

impl<S> Registry<S> {
    fn spend(&mut self, addr: CellAddr) -> Option<S> {
        use alloc::collections::btree_map::Entry;
        match self.open.entry(addr) {
            Entry::Occupied(entry) => Some(entry.remove()),
            Entry::Vacant(_) => None,
        }
    }

    fn define(&mut self, addr: CellAddr, seal: S) {
        let _previous = self.open.insert(addr, seal);
    }
}
''')
ok('stage-table', EVAL='''        let mut state = State::<Seal> {
            contract_id: self.contract_id(),
            codex_id: self.codex().codex_id(),
            is_genesis: true,
            seals: BTreeMap::new(),
        };
        while let Some(mut block) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? {
            state.prepare(&mut block)?;
            let opid = block.operation.opid();
            for check in [State::<Seal>::check_reported] {
                check(&state, opid, &block)?;
            }
            let closed_seals = state.close(&block.operation.destructible_in)?;
            let operation = if self.is_known(opid) {
                None
            } else {
                Some(self.codex().verify(state.contract_id, block.operation, self.memory(), self.repo())?)
            };
            let mut sources = BTreeMap::new();
            for (pos, seal) in &block.defined_seals {
                let seal = match seal.to_src() {
                    Some(seal) => seal,
                    None => match block.witness {
                        Some(ref witness) => seal.resolve(witness.published.pub_id()),
                        None => continue,
                    },
                };
                sources.insert(CellAddr::new(opid, *pos), seal);
            }
            match block.witness {
                Some(witness) => {
                    witness
                        .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                    self.apply_witness(opid, witness);
                }
                None => {
                    if !closed_seals.is_empty() {
                        return Err(VerificationError::NoWitness(opid));
                    }
                }
            }
            state.seals.append(&mut sources);
            match (core::mem::take(&mut state.is_genesis), operation) {
                (true, _) | (_, None) => (),
                (false, Some(operation)) => self.apply_operation(operation),
            }
            if block.defined_seals.len() != 0 {
                self.apply_seals(opid, block.defined_seals);
            }
        }
''' + EVAL[EVAL.rindex('        Ok(())'):], ITEMS='''
struct State<S: RgbSeal> {
    contract_id: ContractId,
    codex_id: CodexId,
    is_genesis: bool,
    seals: BTreeMap<CellAddr, S>,
}

impl<S: RgbSeal> State<S> {
    fn prepare(&self, block: &mut OperationSeals<S>) -> Result<(), VerificationError<S>> {
        if !self.is_genesis {
            return Ok(());
        }
        let committed = block.operation.contract_id.to_byte_array();
        if committed != self.codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        block.operation.contract_id = self.contract_id;
        Ok(())
    }

    fn check_reported(&self, opid: Opid, block: &OperationSeals<S>) -> Result<(), VerificationError<S>> {
        let tokens = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.auth_token())).collect::<BTreeMap<_, _>>();
        let cells = &block.operation.destructible_out;
        if tokens.iter().any(|(pos, token)| cells.get(*pos as usize).map(|cell| &cell.auth) != Some(token)) {
            return Err(VerificationError::SealsDefinitionMismatch {
                opid,
                reported: tokens.into_values().collect(),
                defined: cells.iter().map(|cell| cell.auth).collect(),
                sources: block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
            });
        }
        Ok(())
    }

    fn close(&mut self, inputs: &[ultrasonic::Input]) -> Result<Vec<S>, VerificationError<S>> {
        let mut closed = Vec::with_capacity(inputs.len());
        for input in inputs {
            closed.push(self.seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?);
        }
        Ok(closed)
    }
}
''', USE=USEC)
ok('wit-outcome-enum', WIT='''            let outcome = match block.witness {
                None => Outcome::None,
                Some(witness) => {
                    let pub_id = witness.published.pub_id();
                    match witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into()) {
                        Ok(()) => Outcome::Valid(witness, pub_id),
                        Err(e) => Outcome::Bad(pub_id, e),
                    }
                }
            };
            match outcome {
                Outcome::Bad(id, e) => return Err(VerificationError::SealsNotClosed(id, opid, e)),
                Outcome::None if !closed_seals.is_empty() => return Err(VerificationError::NoWitness(opid)),
                Outcome::None => {}
                Outcome::Valid(witness, id) => {
                    for (pos, seal) in &block.defined_seals {
                        if seal.to_src().is_some() {
                            continue;
                        }
                        seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(id)));
                    }
                    self.apply_witness(opid, witness);
                }
            }

''', ITEMS='''
enum Outcome<S: RgbSeal> {
    None,
    Valid(SealWitness<S>, <S::Published as PublishedWitness<S>>::PubId),
    Bad(<S::Published as PublishedWitness<S>>::PubId, SealError<S>),
}
''')
ok('known-result-both', KNOWN='''            let verdict = (!self.is_known(opid))
                .then(|| self.codex().verify(contract_id, block.operation, self.memory(), self.repo()));
            let operation = match verdict {
                Some(Ok(verified)) => Some(verified),
                Some(Err(e)) => return Err(e.into()),
                None => None,
            };

''')
ok('known-two-ifs', KNOWN='''            let known = self.is_known(opid);
            let mut operation = None;
            if !known {
                let codex = self.codex();
                let (memory, repo) = (self.memory(), self.repo());
                operation.replace(codex.verify(contract_id, block.operation, memory, repo)?);
            }

''')
ok('fin-xor-flag', FIN='''            seals.extend(seal_sources);
            match operation {
                Some(operation) if !is_genesis => self.apply_operation(operation),
                _ => {}
            }
            is_genesis &= false;

''')
ok('gen-if-let-chain-free', GEN='''            block.operation.contract_id = match (is_genesis, block.operation.contract_id) {
                (false, id) => id,
                (true, id) if id.to_byte_array() == codex_id.to_byte_array() => contract_id,
                (true, _) => return Err(VerificationError::NoCodexCommitment),
            };
''')
ok('gen-map-mut', GEN='''            let commitment = is_genesis.then_some(&mut block.operation.contract_id);
            if let Some(id) = commitment {
                if id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                *id = contract_id;
            }
''')
ok('gen-rebuild', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block = OperationSeals { operation: Operation { contract_id, ..block.operation }, ..block };
            }
''')
ok('seal-common-trait', RES='            Part::of(self.primary).with(witness_id, self.secondary)\n', TOSRC='''            match Part::of(self.primary) {
                Part::Full(primary) => Some(TxoSeal { primary, secondary: self.secondary }),
                Part::Relative(_) => None,
            }
''', SITEMS='''
    enum Part {
        Full(Outpoint),
        Relative(bp::Vout),
    }

    impl Part {
        fn of(out: WOutpoint) -> Self {
            match out {
                WOutpoint::Wout(vout) => Part::Relative(vout),
                WOutpoint::Extern(outpoint) => Part::Full(outpoint),
            }
        }

        fn with(self, txid: Txid, secondary: bp::seals::TxoSealExt) -> TxoSeal {
            let primary = match self {
                Part::Full(outpoint) => outpoint,
                Part::Relative(vout) => Outpoint::new(txid, vout),
            };
            TxoSeal { primary, secondary }
        }
    }
''')
ok('seal-fn-outpoint', RES='''            let primary = outpoint(&self.primary, || Some(witness_id)).unwrap_or_else(|| Outpoint::new(witness_id, 0u32));
            TxoSeal { primary, secondary: self.secondary }
''', TOSRC='''            outpoint(&self.primary, || None).map(|primary| TxoSeal { primary, secondary: self.secondary })
''', SITEMS='''
    fn outpoint(out: &WOutpoint, txid: impl FnOnce() -> Option<Txid>) -> Option<Outpoint> {
        match out {
            WOutpoint::Extern(outpoint) => Some(*outpoint),
            WOutpoint::Wout(vout) => Some(Outpoint::new(txid()?, *vout)),
        }
    }
''')
ok('auth-iter-zip-rev', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut token = [0u8; 30];
            for (to, from) in token.iter_mut().rev().zip(id[..30].iter().rev()) {
                *to = *from;
            }
            AuthToken::from_byte_array(token)
''')
ok('auth-split-last', AUTH='''            let id = self.commit_id().to_byte_array();
            let [token @ .., _, _] = id;
            AuthToken::from_byte_array(token)
''')
ok('own-defs-iter', MATCH=match('''            let matching = Defs { left: block.defined_seals.iter(), op: &block.operation }.all(|ok| ok);
'''), ITEMS='''
struct Defs<'a, D> {
    left: alloc::collections::btree_map::Iter<'a, u16, D>,
    op: &'a Operation,
}

impl<D: RgbSealDef> Iterator for Defs<'_, D> {
    type Item = bool;

    fn next(&mut self) -> Option<bool> {
        let (pos, seal) = self.left.next()?;
        Some(self.op.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token()))
    }
}
''')
ok('own-defs-position', MATCH=match('''            let mut defs = Defs { left: block.defined_seals.iter(), op: &block.operation };
            let matching = defs.position(|ok| !ok).is_none();
'''), ITEMS=VARIANTS['own-defs-iter']['ITEMS'])
ok('own-defs-loop', MATCH=match('''            let mut defs = Defs { left: block.defined_seals.iter(), op: &block.operation };
            let mut matching = true;
            while let Some(ok) = defs.next() {
                matching = matching && ok;
            }
'''), ITEMS=VARIANTS['own-defs-iter']['ITEMS'])
ok('own-sources-iter', SRC='''            let mut seal_sources: BTreeSet<_> = Known { left: block.defined_seals.iter(), opid }.collect();

''', ITEMS='''
struct Known<'a, D> {
    left: alloc::collections::btree_map::Iter<'a, u16, D>,
    opid: Opid,
}

impl<D: RgbSealDef> Iterator for Known<'_, D> {
    type Item = (CellAddr, D::Src);

    fn next(&mut self) -> Option<Self::Item> {
        let opid = self.opid;
        self.left.find_map(|(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))
    }
}
''')
ok('own-sources-loop-iter', SRC='''            let mut seal_sources = Known { left: block.defined_seals.iter(), opid }.collect::<BTreeSet<_>>();

''', ITEMS=VARIANTS['own-sources-iter']['ITEMS'].replace('''        let opid = self.opid;
        self.left.find_map(|(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))
''', '''        loop {
            let (pos, seal) = self.left.next()?;
            if let Some(seal) = seal.to_src() {
                return Some((CellAddr::new(self.opid, *pos), seal));
            }
        }
'''))
ok('own-index-match', MATCH=match('''            let cells = Cells(&block.operation);
            let count = block.operation.destructible_out.len();
            let matching = block.defined_seals.iter().all(|(no, seal)| (*no as usize) < count && cells[*no as usize] == seal.auth_token());
'''), ITEMS='''
struct Cells<'a>(&'a Operation);

impl core::ops::Index<usize> for Cells<'_> {
    type Output = AuthToken;

    fn index(&self, no: usize) -> &AuthToken { &self.0.destructible_out[no].auth }
}
''')
ok('own-find-left', SRC='''            let mut seal_sources = BTreeSet::new();
            let mut left = block.defined_seals.iter();
            while let Some((pos, seal)) = left.find_map(|(pos, seal)| Some((*pos, seal.to_src()?))) {
                seal_sources.insert((CellAddr::new(opid, pos), seal));
            }

''')
ok('own-find-inner-loop', SRC='''            let mut seal_sources = BTreeSet::new();
            let mut left = block.defined_seals.iter();
            'defs: loop {
                let (pos, seal) = loop {
                    let Some((pos, seal)) = left.next() else { break 'defs };
                    if let Some(seal) = seal.to_src() {
                        break (*pos, seal);
                    }
                };
                seal_sources.insert((CellAddr::new(opid, pos), seal));
            }

''')
ok('own-into-iter', FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(Sources(seal_sources));')), ITEMS='''
struct Sources<S: RgbSeal>(BTreeSet<(CellAddr, S)>);

impl<S: RgbSeal> IntoIterator for Sources<S> {
    type Item = (CellAddr, S);
    type IntoIter = alloc::collections::btree_set::IntoIter<(CellAddr, S)>;

    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
''')
ok('own-extend', FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(seal_sources);')), PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal>(BTreeMap::new())')),
   CLOSED=rep('CLOSED', ('.remove(&input.addr)', '.0.remove(&input.addr)')), ITEMS='''
struct Registry<S: RgbSeal>(BTreeMap<CellAddr, S>);

impl<S: RgbSeal> Extend<(CellAddr, S)> for Registry<S> {
    fn extend<T: IntoIterator<Item = (CellAddr, S)>>(&mut self, iter: T) {
        iter.into_iter().for_each(|(addr, seal)| {
            self.0.insert(addr, seal);
        })
    }
}
''')
ok('own-from-iter', SRC=rep('SRC', ('let mut seal_sources: BTreeSet<_>', 'let mut seal_sources: Sources<Seal>')), WIT=rep('WIT', ('seal_sources.extend(iter);', 'seal_sources.0.extend(iter);')),
   FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(seal_sources.0);')), ITEMS='''
struct Sources<S: RgbSeal>(BTreeSet<(CellAddr, S)>);

impl<S: RgbSeal> FromIterator<(CellAddr, S)> for Sources<S> {
    fn from_iter<T: IntoIterator<Item = (CellAddr, S)>>(iter: T) -> Self { Sources(iter.into_iter().collect()) }
}
''')
ok('own-from-operation', GEN=B['GEN'], MATCH=match('''            let tokens = Tokens::from(&block.operation);
            let matching = block.defined_seals.iter().all(|(pos, seal)| tokens.has(*pos, &seal.auth_token()));
'''), ITEMS='''
struct Tokens(Vec<AuthToken>);

impl From<&Operation> for Tokens {
    fn from(op: &Operation) -> Self { Self(op.destructible_out.iter().map(|cell| cell.auth).collect()) }
}

impl Tokens {
    fn has(&self, pos: u16, token: &AuthToken) -> bool { self.0.get(usize::from(pos)) == Some(token) }
}
''')
ok('own-partial-eq', MATCH=match('''            let matching = block.defined_seals.iter().all(|(pos, seal)| Slot(&block.operation, *pos) == Token(seal.auth_token()));
'''), ITEMS='''
struct Slot<'a>(&'a Operation, u16);
struct Token(AuthToken);

impl PartialEq<Token> for Slot<'_> {
    fn eq(&self, other: &Token) -> bool {
        match self.0.destructible_out.get(self.1 as usize) {
            None => false,
            Some(cell) => cell.auth == other.0,
        }
    }
}
''')
ok('own-not', KNOWN=rep('KNOWN', ('if self.is_known(opid) {\n                None', 'let fresh = Fresh(!self.is_known(opid));\n            let operation = if !*fresh {\n                None')) if False else rep('KNOWN', ('if self.is_known(opid)', 'if !*Fresh(!self.is_known(opid))')), ITEMS='''
struct Fresh(bool);

impl core::ops::Deref for Fresh {
    type Target = bool;

    fn deref(&self) -> &bool { &self.0 }
}
''')
ok('own-try-from', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '!Commitment::from(&block.operation).is(&codex_id)')), ITEMS='''
struct Commitment([u8; 32]);

impl From<&Operation> for Commitment {
    fn from(op: &Operation) -> Self { Commitment(op.contract_id.to_byte_array()) }
}

impl Commitment {
    fn is(&self, codex: &CodexId) -> bool { self.0 == codex.to_byte_array() }
}
''', USE=USEC)
ok('own-default-state', PRE='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();

        let Init { mut is_genesis, mut seals } = Init::<Seal>::default();

''', ITEMS='''
struct Init<S: RgbSeal> {
    is_genesis: bool,
    seals: BTreeMap<CellAddr, S>,
}

impl<S: RgbSeal> Default for Init<S> {
    fn default() -> Self { Init { is_genesis: true, seals: Default::default() } }
}
''')
ok('own-drop-scope', CLOSED=HEADC + '''            {
                let registry = &mut seals;
                let inputs = &block.operation.destructible_in;
                closed_seals.reserve(inputs.len());
                for (_, input) in inputs.iter().enumerate() {
                    closed_seals.push(match registry.remove(&input.addr) {
                        Some(seal) => seal,
                        None => Err(VerificationError::SealUnknown(input.addr))?,
                    });
                }
            }

''')
ok('own-error-into', MATCH=match('            let matching = mismatch(&block).is_ok();\n'), ITEMS='''
struct Mismatch;

fn mismatch<S: RgbSeal>(block: &OperationSeals<S>) -> Result<(), Mismatch> {
    block.defined_seals.iter().try_for_each(|(pos, seal)| {
        let cell = block.operation.destructible_out.get(*pos as usize).ok_or(Mismatch)?;
        if cell.auth == seal.auth_token() { Ok(()) } else { Err(Mismatch) }
    })
}
''')
