"""More variants of the source with the same behaviour: no check may report any of them."""
import base

VARIANTS = {}
BODY = base.EVAL
B = base.B


def ok(name, **kw):
    VARIANTS[name] = kw


def body(**kw):
    t = BODY
    for k, v in kw.items():
        assert t.count(B[k]) == 1, k
        t = t.replace(B[k], v)
    return t


DESTR = '''            let OperationSeals { mut operation, defined_seals, witness } = block;
'''
ok('destructure-early', EVAL=BODY.replace('Some(mut block)', 'Some(block)').replace(
    '            // Genesis cannot commit', DESTR + '            // Genesis cannot commit').replace('block.operation', 'operation').replace(
    'block\n                .operation', 'operation').replace('block\n                    .operation', 'operation').replace(
    'block.defined_seals', 'defined_seals').replace('block\n                .defined_seals', 'defined_seals').replace(
    'block\n                    .defined_seals', 'defined_seals').replace('block.witness', 'witness').replace(
    'let operation = if self', 'let verified_op = if self').replace('let Some(operation) = operation', 'let Some(operation) = verified_op'))

ok('registry-struct', EVAL=BODY.replace('BTreeMap::<CellAddr, Seal>::new()', 'SealRegistry::<Seal>::default()').replace(
    B['CLOSED'], '''            let closed_seals = seals.spend_all(&block.operation)?;

''').replace('seals.extend(seal_sources);', 'seals.register(seal_sources);'), ITEMS='''
struct SealRegistry<Seal: RgbSeal> {
    unspent: BTreeMap<CellAddr, Seal>,
}

impl<Seal: RgbSeal> Default for SealRegistry<Seal> {
    fn default() -> Self { Self { unspent: BTreeMap::new() } }
}

impl<Seal: RgbSeal> SealRegistry<Seal> {
    fn spend(&mut self, addr: CellAddr) -> Result<Seal, VerificationError<Seal>> {
        self.unspent.remove(&addr).ok_or(VerificationError::SealUnknown(addr))
    }

    fn spend_all(&mut self, op: &Operation) -> Result<Vec<Seal>, VerificationError<Seal>> {
        op.destructible_in.iter().map(|input| self.spend(input.addr)).collect()
    }

    fn register(&mut self, seals: impl IntoIterator<Item = (CellAddr, Seal)>) {
        for (addr, seal) in seals {
            self.unspent.insert(addr, seal);
        }
    }
}
''')

PROC = '''
struct Verifier<Seal: RgbSeal> {
    contract_id: ContractId,
    codex_id: CodexId,
    is_genesis: bool,
    seals: BTreeMap<CellAddr, Seal>,
}

impl<Seal: RgbSeal> Verifier<Seal> {
    fn new<C: ContractApi<Seal> + ?Sized>(contract: &C) -> Self {
        Self {
            contract_id: contract.contract_id(),
            codex_id: contract.codex().codex_id(),
            is_genesis: true,
            seals: BTreeMap::new(),
        }
    }

    fn process<C: ContractApi<Seal> + ?Sized>(
        &mut self,
        contract: &mut C,
        mut block: OperationSeals<Seal>,
    ) -> Result<(), VerificationError<Seal>> {
''' + ''.join(B[k] for k in ('GEN', 'OPID', 'SETS', 'MATCH', 'CLOSED', 'KNOWN', 'SRC', 'WIT', 'FIN')).replace('self.', 'contract.').replace(
    'self\n', 'contract\n').replace('is_genesis', 'self.is_genesis').replace(' seals\n', ' self.seals\n').replace(
    ' seals.extend', ' self.seals.extend').replace('codex_id.', 'self.codex_id.').replace('= contract_id;', '= self.contract_id;').replace(
    'verify(contract_id', 'verify(self.contract_id') + '''
            if !block.defined_seals.is_empty() {
                contract.apply_seals(opid, block.defined_seals);
            }
            Ok(())
    }
}
'''
ok('verifier-struct', EVAL='''        let mut verifier = Verifier::new(self);
        while let Some(block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
            verifier.process(self, block)?;
        }
        Ok(())
''', ITEMS=PROC, SUB=[('AuthToken, CallError, CellAddr, Codex, ContractId,', 'AuthToken, CallError, CellAddr, Codex, CodexId, ContractId,')])
ok('verifier-struct-loop', EVAL='''        let mut verifier = Verifier::new(self);
        loop {
            match reader.read_operation() {
                Ok(None) => return Ok(()),
                Ok(Some(block)) => verifier.process(self, block)?,
                Err(e) => return Err(VerificationError::Stream(Box::new(e))),
            }
        }
''', ITEMS=PROC, SUB=[('AuthToken, CallError, CellAddr, Codex, ContractId,', 'AuthToken, CallError, CellAddr, Codex, CodexId, ContractId,')])

ok('state-enum', EVAL=BODY.replace('let mut is_genesis = true;', 'let mut stage = Stage::Genesis;').replace(
    'if is_genesis {\n                if block', 'if stage == Stage::Genesis {\n                if block').replace(
    '''            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }
''', '''            match (stage, operation) {
                (Stage::Genesis, _) => stage = Stage::Transitions,
                (Stage::Transitions, Some(operation)) => self.apply_operation(operation),
                (Stage::Transitions, None) => {}
            }
'''), ITEMS='''
#[derive(Copy, Clone, PartialEq, Eq)]
enum Stage {
    Genesis,
    Transitions,
}
''')

ok('sets-lazy', SETS='', SUB=[('''            if !matching {
''', '''            if !matching {
                let defined = block.operation.destructible_out.iter().map(|cell| cell.auth).collect();
                let reported = block.defined_seals.values().map(|seal| seal.auth_token()).collect();
''')])

ok('check-method', SETS='', MATCH='''            block.check_definitions(opid)?;

''', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn check_definitions(&self, opid: Opid) -> Result<(), VerificationError<Seal>> {
        let cells = &self.operation.destructible_out;
        for (pos, seal) in &self.defined_seals {
            let auth = seal.auth_token();
            match cells.get(usize::from(*pos)) {
                Some(cell) if cell.auth == auth => continue,
                _ => return Err(self.mismatch(opid)),
            }
        }
        Ok(())
    }

    fn mismatch(&self, opid: Opid) -> VerificationError<Seal> {
        VerificationError::SealsDefinitionMismatch {
            opid,
            reported: self.defined_seals.values().map(RgbSealDef::auth_token).collect(),
            defined: self.operation.destructible_out.iter().map(|cell| cell.auth).collect(),
            sources: self.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
        }
    }
}
''')

ok('check-option', SETS='', MATCH='''            if let Some(err) = mismatch(opid, &block) {
                return Err(err);
            }

''', ITEMS='''
fn mismatch<Seal: RgbSeal>(opid: Opid, block: &OperationSeals<Seal>) -> Option<VerificationError<Seal>> {
    let cells = block.operation.destructible_out.as_slice();
    let ok = block
        .defined_seals
        .iter()
        .all(|(pos, seal)| cells.get(*pos as usize).map(|cell| cell.auth) == Some(seal.auth_token()));
    if ok {
        return None;
    }
    let mut sources = BTreeMap::new();
    let mut reported = BTreeSet::new();
    for (pos, seal) in block.defined_seals.iter() {
        sources.insert(*pos, seal.to_string());
        reported.insert(seal.auth_token());
    }
    let defined = cells.iter().map(|cell| cell.auth).collect();
    Some(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources })
}
''')

ok('match-try-for-each', MATCH='''            let res = block.defined_seals.iter().try_for_each(|(pos, seal)| {
                match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) if cell.auth == seal.auth_token() => Ok(()),
                    _ => Err(*pos),
                }
            });
            if res.is_err() {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-keys', MATCH='''            let matching = block.defined_seals.keys().all(|pos| (*pos as usize) < block.operation.destructible_out.len())
                && block
                    .defined_seals
                    .iter()
                    .all(|(pos, seal)| block.operation.destructible_out[*pos as usize].auth == seal.auth_token());
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-nested-if', MATCH='''            let mut mismatch = false;
            for (pos, seal) in &block.defined_seals {
                if let Some(cell) = block.operation.destructible_out.get(*pos as usize) {
                    if cell.auth != seal.auth_token() {
                        mismatch = true;
                    }
                } else {
                    mismatch = true;
                }
            }
            if mismatch {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-return-inside', MATCH='''            for (pos, seal) in &block.defined_seals {
                let auth = block.operation.destructible_out.get(*pos as usize).map(|cell| &cell.auth);
                if auth != Some(&seal.auth_token()) {
                    let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                    return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
                }
            }

''')
ok('match-fold', MATCH='''            let matching = block.defined_seals.iter().fold(true, |ok, (pos, seal)| {
                let cell = block.operation.destructible_out.get(*pos as usize);
                ok && cell.is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')

ok('genesis-from', GEN='''            if is_genesis {
                let commitment = ContractId::from(codex_id.to_byte_array());
                if block.operation.contract_id != commitment {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
ok('genesis-ne', GEN='''            if is_genesis {
                let committed = block.operation.contract_id.to_byte_array();
                let matches = committed.eq(&codex_id.to_byte_array());
                if !matches {
                    return Err(VerificationError::NoCodexCommitment);
                }
                let operation = &mut block.operation;
                operation.contract_id = contract_id;
            }
''')
ok('genesis-replace', GEN='''            if is_genesis {
                let committed = core::mem::replace(&mut block.operation.contract_id, contract_id);
                if committed.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
            }
''')
ok('genesis-slices', GEN='''            if is_genesis {
                let commitment = codex_id.to_byte_array();
                if block.operation.contract_id.to_byte_array()[..] != commitment[..] {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
ok('genesis-fn', GEN='''            if is_genesis {
                commit_check(&block.operation, codex_id)?;
                block.operation.contract_id = contract_id;
            }
''', ITEMS='''
fn commit_check<Seal: RgbSeal>(op: &Operation, codex_id: ultrasonic::CodexId) -> Result<(), VerificationError<Seal>> {
    let expected = codex_id.to_byte_array();
    let actual = op.contract_id.to_byte_array();
    if expected == actual {
        Ok(())
    } else {
        Err(VerificationError::NoCodexCommitment)
    }
}
''')
ok('first-flag', GEN='''            let first = is_genesis;
            is_genesis = false;
            if first {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN='''            seals.extend(seal_sources);
            if !first {
                if let Some(operation) = operation {
                    self.apply_operation(operation);
                }
            }

''')
ok('pre-swap', PRE='''        let mut seals = BTreeMap::<CellAddr, Seal>::new();
        let codex_id = self.codex().codex_id();
        let contract_id = self.contract_id();
        let mut is_genesis = true;

''')
ok('pre-bytes', PRE='''        let contract_id = self.contract_id();
        let codex_commitment: [u8; 32] = self.codex().codex_id().to_byte_array();

        let mut is_genesis = true;
        let mut seals: BTreeMap<CellAddr, Seal> = Default::default();

''', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_commitment {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')

ok('closed-map-collect', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
                .collect::<Result<Vec<_>, _>>()?;

''')
ok('closed-closure', CLOSED='''            let mut consume = |addr: CellAddr| seals.remove(&addr).ok_or(VerificationError::<Seal>::SealUnknown(addr));
            let mut closed_seals = Vec::with_capacity(block.operation.destructible_in.len());
            for input in &block.operation.destructible_in {
                closed_seals.push(consume(input.addr)?);
            }

''')
ok('closed-while-next', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let mut inputs = block.operation.destructible_in.iter();
            while let Some(input) = inputs.next() {
                let Some(seal) = seals.remove(&input.addr) else {
                    return Err(VerificationError::SealUnknown(input.addr));
                };
                closed_seals.push(seal);
            }

''')
ok('closed-contains', CLOSED='''            let mut closed_seals = vec![];
            for addr in block.operation.destructible_in.iter().map(|input| input.addr) {
                if !seals.contains_key(&addr) {
                    return Err(VerificationError::SealUnknown(addr));
                }
                closed_seals.extend(seals.remove(&addr));
            }

''', USE='use alloc::vec;\n')
ok('closed-try-for-each', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            block.operation.destructible_in.iter().try_for_each(|input| {
                let seal = seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
                Ok::<_, VerificationError<Seal>>(())
            })?;

''')
ok('closed-ok-or-else', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for (_no, input) in block.operation.destructible_in.iter().enumerate() {
                let addr = input.addr;
                let seal = seals.remove(&addr).ok_or_else(|| VerificationError::SealUnknown(addr))?;
                closed_seals.push(seal);
            }

''')

ok('known-neg', KNOWN='''            let operation = if !self.is_known(opid) {
                Some(
                    self.codex()
                        .verify(contract_id, block.operation, self.memory(), self.repo())
                        .map_err(VerificationError::Vm)?,
                )
            } else {
                None
            };

''')
ok('known-fn', KNOWN='''            let operation = verify_new(self, contract_id, opid, block.operation)?;

''', ITEMS='''
fn verify_new<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>(
    contract: &C,
    contract_id: ContractId,
    opid: Opid,
    operation: Operation,
) -> Result<Option<VerifiedOperation>, CallError> {
    if contract.is_known(opid) {
        return Ok(None);
    }
    contract.codex().verify(contract_id, operation, contract.memory(), contract.repo()).map(Some)
}
''')
ok('known-var', KNOWN='''            let new = !self.is_known(opid);
            let mut verified = None;
            if new {
                let result = self.codex().verify(contract_id, block.operation, self.memory(), self.repo());
                verified = Some(result?);
            }
            let operation = verified;

''')

ok('src-vec', SRC='''            let mut seal_sources = Vec::new();
            for (pos, seal) in &block.defined_seals {
                if let Some(src) = seal.to_src() {
                    seal_sources.push((CellAddr::new(opid, *pos), src));
                }
            }

''')
ok('src-flat-map', SRC='''            let mut seal_sources = block
                .defined_seals
                .iter()
                .flat_map(|(pos, seal)| seal.to_src().map(|src| (CellAddr { opid, pos: *pos }, src)))
                .collect::<BTreeMap<_, _>>();

''')
ok('src-iter-fn', SRC='''            let mut seal_sources = block.self_contained(opid).collect::<BTreeSet<_>>();

''', WIT='''            if let Some(witness) = block.witness.take() {
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                seal_sources.extend(block.relative(opid, witness.published.pub_id()));
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

''', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                Some(self.codex().verify(contract_id, block.operation.clone(), self.memory(), self.repo())?)
            };

''', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn self_contained(&self, opid: Opid) -> impl Iterator<Item = (CellAddr, Seal)> + '_ {
        self.defined_seals
            .iter()
            .filter_map(move |(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))
    }

    fn relative(&self, opid: Opid, id: Seal::WitnessId) -> impl Iterator<Item = (CellAddr, Seal)> + '_ {
        self.defined_seals
            .iter()
            .filter(|(_, seal)| seal.to_src().is_none())
            .map(move |(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(id)))
    }
}
''')
ok('src-chain', SRC='', WIT='''            let witness_id = block.witness.as_ref().map(|witness| witness.published.pub_id());
            if let Some(witness) = block.witness {
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }
            let complete = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|src| (CellAddr::new(opid, *pos), src)));
            let relative = block.defined_seals.iter().filter_map(|(pos, seal)| match (seal.to_src(), witness_id) {
                (None, Some(id)) => Some((CellAddr::new(opid, *pos), seal.resolve(id))),
                _ => None,
            });
            let seal_sources = complete.chain(relative).collect::<Vec<_>>();

''')
ok('src-loop-match', SRC='', WIT='''            let mut witness_id = None;
            match block.witness {
                None if closed_seals.is_empty() => {}
                None => return Err(VerificationError::NoWitness(opid)),
                Some(witness) => {
                    let id = witness.published.pub_id();
                    if let Err(e) = witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into()) {
                        return Err(VerificationError::SealsNotClosed(id, opid, e));
                    }
                    witness_id = Some(id);
                    self.apply_witness(opid, witness);
                }
            }

''', FIN='''            for (pos, def) in block.defined_seals.iter() {
                let seal = match (def.to_src(), witness_id) {
                    (Some(seal), _) => seal,
                    (None, Some(id)) => def.resolve(id),
                    (None, None) => continue,
                };
                seals.insert(CellAddr::new(opid, *pos), seal);
            }
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }

''')
ok('wit-tuple', WIT='''            match (block.witness, closed_seals.is_empty()) {
                (None, true) => {}
                (None, false) => return Err(VerificationError::NoWitness(opid)),
                (Some(witness), _) => {
                    let msg: Seal::Message = opid.to_byte_array().into();
                    witness
                        .verify_seals_closing(closed_seals.iter(), msg)
                        .map_err(|err| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, err))?;
                    let pub_id = witness.published.pub_id();
                    seal_sources.extend(
                        block
                            .defined_seals
                            .iter()
                            .filter(|(_, seal)| seal.to_src().is_none())
                            .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                    );
                    self.apply_witness(opid, witness);
                }
            }

''')
ok('wit-nowitness-first', SUB=[('''            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }
''', '''            }
'''), ('''            // This convoluted logic''', '''            if block.witness.is_none() && !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

            // This convoluted logic''')])
ok('wit-fn', WIT='''            if let Some(witness) = block.witness {
                let pub_id = check_witness(&witness, &closed_seals, opid)?;
                for (pos, seal) in block.defined_seals.iter().filter(|(_, seal)| seal.to_src().is_none()) {
                    seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                }
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

''', ITEMS='''
fn check_witness<Seal: RgbSeal>(
    witness: &SealWitness<Seal>,
    closed: &[Seal],
    opid: Opid,
) -> Result<Seal::WitnessId, VerificationError<Seal>> {
    let id = witness.published.pub_id();
    match witness.verify_seals_closing(closed, opid.to_byte_array().into()) {
        Ok(_) => Ok(id),
        Err(e) => Err(VerificationError::SealsNotClosed(id, opid, e)),
    }
}
''')
ok('fin-append', FIN='''            let mut fresh: BTreeMap<_, _> = seal_sources.into_iter().collect();
            seals.append(&mut fresh);
            let new = operation.filter(|_| !is_genesis);
            is_genesis = false;
            if let Some(operation) = new {
                self.apply_operation(operation);
            }

''')
ok('fin-let-else', FIN='''            seals.extend(seal_sources);
            let was_genesis = is_genesis;
            is_genesis = false;
            match operation {
                Some(operation) if !was_genesis => self.apply_operation(operation),
                _ => {}
            }

''')
ok('seals-take', SEALS='''            let defined = core::mem::take(&mut block.defined_seals);
            if !defined.is_empty() {
                self.apply_seals(opid, defined);
            }
        }

''')
ok('seals-continue', SEALS='''            if block.defined_seals.is_empty() {
                continue;
            }
            self.apply_seals(opid, block.defined_seals);
        }

''')
ok('read-fn', HEAD='''        while let Some(mut block) = next_block(&mut reader)? {
''', ITEMS='''
fn next_block<R: ReadOperation>(reader: &mut R) -> Result<Option<OperationSeals<R::Seal>>, VerificationError<R::Seal>> {
    reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))
}
''')
ok('read-transpose', HEAD='''        while let Some(res) = reader.read_operation().transpose() {
            let mut block = res.map_err(|e| VerificationError::Stream(Box::new(e)))?;
''')
ok('read-box-from', HEAD='''        loop {
            let read = match reader.read_operation() {
                Err(e) => return Err(VerificationError::Stream(Box::<dyn Error>::from(e))),
                Ok(read) => read,
            };
            let mut block = match read {
                None => return Ok(()),
                Some(block) => block,
            };
''', SUB=[('''                self.apply_seals(opid, block.defined_seals);
            }
        }

        Ok(())
''', '''                self.apply_seals(opid, block.defined_seals);
            }
        }
''')])
ok('priv-trait', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut is_genesis = true;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();

        while let Some(block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
            self.step(contract_id, codex_id, is_genesis, &mut seals, block)?;
            is_genesis = false;
        }
        Ok(())
''', ITEMS='''
trait Step<Seal: RgbSeal>: ContractApi<Seal> {
    fn step(
        &mut self,
        contract_id: ContractId,
        codex_id: ultrasonic::CodexId,
        is_genesis: bool,
        seals: &mut BTreeMap<CellAddr, Seal>,
        mut block: OperationSeals<Seal>,
    ) -> Result<(), VerificationError<Seal>> {
''' + ''.join(B[k] for k in ('GEN', 'OPID', 'SETS', 'MATCH', 'CLOSED', 'KNOWN', 'SRC', 'WIT')) + '''
        seals.extend(seal_sources);
        if let (false, Some(operation)) = (is_genesis, operation) {
            self.apply_operation(operation);
        }
        if !block.defined_seals.is_empty() {
            self.apply_seals(opid, block.defined_seals);
        }
        Ok(())
    }
}
impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> Step<Seal> for C {}
''')
ok('macro', CLOSED='''            macro_rules! bail {
                ($e:expr) => {
                    return Err($e)
                };
            }
            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                match seals.remove(&input.addr) {
                    None => bail!(VerificationError::SealUnknown(input.addr)),
                    Some(seal) => closed_seals.push(seal),
                }
            }

''')
ok('verified-struct', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut is_genesis = true;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();

        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
''' + ''.join(B[k] for k in ('GEN', 'OPID', 'SETS', 'MATCH', 'CLOSED', 'KNOWN')) + '''
            let outcome = Outcome { opid, operation, closed: closed_seals, defined: block.defined_seals, witness: block.witness };
            let fresh = outcome.finish(self, core::mem::take(&mut is_genesis))?;
            seals.extend(fresh);
        }

        Ok(())
''', ITEMS='''
struct Outcome<Seal: RgbSeal> {
    opid: Opid,
    operation: Option<VerifiedOperation>,
    closed: Vec<Seal>,
    defined: SmallOrdMap<u16, Seal::Definition>,
    witness: Option<SealWitness<Seal>>,
}
impl<Seal: RgbSeal> Outcome<Seal> {
    fn finish<C: ContractApi<Seal> + ?Sized>(
        self,
        api: &mut C,
        genesis: bool,
    ) -> Result<BTreeMap<CellAddr, Seal>, VerificationError<Seal>> {
        let Outcome { opid, operation, closed, defined, witness } = self;
        let addr = |pos: u16| CellAddr::new(opid, pos);
        let mut fresh = BTreeMap::new();
        fresh.extend(defined.iter().filter_map(|(pos, seal)| Some((addr(*pos), seal.to_src()?))));
        if let Some(witness) = witness {
            let pub_id = witness.published.pub_id();
            witness
                .verify_seals_closing(&closed, opid.to_byte_array().into())
                .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
            fresh.extend(
                defined.iter().filter(|(_, s)| s.to_src().is_none()).map(|(pos, s)| (addr(*pos), s.resolve(pub_id))),
            );
            api.apply_witness(opid, witness);
        } else if !closed.is_empty() {
            return Err(VerificationError::NoWitness(opid));
        }
        if let Some(operation) = operation {
            if !genesis {
                api.apply_operation(operation);
            }
        }
        if !defined.is_empty() {
            api.apply_seals(opid, defined);
        }
        Ok(fresh)
    }
}
''')
ok('trace-log', OPID='''            let opid = block.operation.opid();
            let mut summary = alloc::string::String::new();
            {
                use core::fmt::Write;
                let _ = write!(summary, "operation {opid}");
            }
            drop(summary);
''')
ok('seals-option-entry', FIN='''            for (addr, seal) in seal_sources {
                match seals.entry(addr) {
                    alloc::collections::btree_map::Entry::Occupied(mut entry) => {
                        entry.insert(seal);
                    }
                    alloc::collections::btree_map::Entry::Vacant(entry) => {
                        entry.insert(seal);
                    }
                }
            }
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }

''')
ok('auth-collect-vec', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for (i, byte) in id.iter().copied().take(30).enumerate() {
                shortened_id[i] = byte;
            }
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-while', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            let mut i = 0;
            while i < shortened_id.len() {
                shortened_id[i] = id[i];
                i += 1;
            }
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-helper-generic', SITEMS='''    fn truncate<const N: usize>(id: &[u8]) -> [u8; N] {
        let mut buf = [0u8; N];
        buf.copy_from_slice(&id[..N]);
        buf
    }
''', AUTH='''            let id = self.commit_id().to_byte_array();
            AuthToken::from_byte_array(truncate(&id))
''')
ok('auth-split-array', AUTH='''            let id = self.commit_id().to_byte_array();
            let Some((shortened_id, _)) = id.split_first_chunk::<30>() else { unreachable!() };
            AuthToken::from_byte_array(*shortened_id)
''')
ok('auth-range-inclusive', AUTH='''            let id: [u8; 32] = self.commit_id().to_byte_array();
            let mut shortened_id = <[u8; 30]>::default_zero();
            shortened_id[..].copy_from_slice(&id[..=29]);
            AuthToken::from_byte_array(shortened_id)
'''.replace('<[u8; 30]>::default_zero()', '[0; 30]'))
ok('res-unwrap-or-else', RES='''            self.to_src().unwrap_or_else(|| {
                let WOutpoint::Wout(wout) = self.primary else {
                    unreachable!("complete definitions are their own source")
                };
                TxoSeal { primary: Outpoint::new(witness_id, wout), secondary: self.secondary }
            })
''')
ok('res-match-whole', RES='''            match *self {
                WTxoSeal { primary: WOutpoint::Wout(vout), secondary } => {
                    TxoSeal { primary: Outpoint::new(witness_id, vout), secondary }
                }
                WTxoSeal { primary: WOutpoint::Extern(primary), secondary } => TxoSeal { primary, secondary },
            }
''')
ok('tosrc-matches', TOSRC='''            if matches!(self.primary, WOutpoint::Wout(_)) {
                return None;
            }
            match self.primary {
                WOutpoint::Extern(primary) => Some(TxoSeal { primary, secondary: self.secondary }),
                WOutpoint::Wout(_) => None,
            }
''')
ok('tosrc-opt', TOSRC='''            let outpoint = match self.primary {
                WOutpoint::Wout(_) => None,
                WOutpoint::Extern(outpoint) => Some(outpoint),
            }?;
            let secondary = self.secondary;
            Some(TxoSeal { primary: outpoint, secondary })
''')
ok('clone-let', CLONE='''        let operation = self.operation.clone();
        let defined_seals = self.defined_seals.clone();
        let witness = self.witness.clone();
        OperationSeals { operation, defined_seals, witness }
''')
ok('clone-map', CLONE='''        Self {
            operation: self.operation.to_owned(),
            defined_seals: self.defined_seals.clone(),
            witness: self.witness.as_ref().cloned(),
        }
''')
