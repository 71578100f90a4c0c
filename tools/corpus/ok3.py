"""More variants of the source with the same behaviour."""
from base import B, SB, EVAL
from ok2 import BODY

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


ok('reg-wrapper', EVAL=BODY.replace('let mut seals = BTreeMap::<CellAddr, Seal>::new();', 'let mut seals = Registry::<Seal>::new();'),
   CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                closed_seals.push(seals.consume(input.addr)?);
            }

''', FIN=B['FIN'].replace('seals.extend(seal_sources);', 'seals.register(seal_sources);'), ITEMS='''
struct Registry<Seal: RgbSeal>(BTreeMap<CellAddr, Seal>);
impl<Seal: RgbSeal> Registry<Seal> {
    fn new() -> Self { Self(BTreeMap::new()) }
    fn consume(&mut self, addr: CellAddr) -> Result<Seal, VerificationError<Seal>> {
        match self.0.remove(&addr) {
            Some(seal) => Ok(seal),
            None => Err(VerificationError::SealUnknown(addr)),
        }
    }
    fn register(&mut self, new: impl IntoIterator<Item = (CellAddr, Seal)>) {
        for (addr, seal) in new {
            self.0.insert(addr, seal);
        }
    }
}
''')
ok('reg-wrapper-batch', EVAL=BODY.replace('let mut seals = BTreeMap::<CellAddr, Seal>::new();', 'let mut seals = Registry::<Seal>::default();'),
   CLOSED='''            let closed_seals = seals.consume_all(&block.operation)?;

''', FIN=B['FIN'].replace('seals.extend(seal_sources);', 'seals.register(seal_sources.into_iter());'), ITEMS='''
struct Registry<Seal: RgbSeal> {
    known: BTreeMap<CellAddr, Seal>,
}
impl<Seal: RgbSeal> Default for Registry<Seal> {
    fn default() -> Self { Self { known: BTreeMap::new() } }
}
impl<Seal: RgbSeal> Registry<Seal> {
    fn consume_all(&mut self, op: &Operation) -> Result<Vec<Seal>, VerificationError<Seal>> {
        let mut closed = Vec::with_capacity(op.destructible_in.len());
        for input in op.destructible_in.iter() {
            let Some(seal) = self.known.remove(&input.addr) else {
                return Err(VerificationError::SealUnknown(input.addr));
            };
            closed.push(seal);
        }
        Ok(closed)
    }
    fn register<I: Iterator<Item = (CellAddr, Seal)>>(&mut self, new: I) { self.known.extend(new) }
}
''')
ok('src-for-match', SRC='''            let mut seal_sources = BTreeSet::new();
            for (pos, seal) in &block.defined_seals {
                match seal.to_src() {
                    Some(src) => {
                        seal_sources.insert((CellAddr::new(opid, *pos), src));
                    }
                    None => continue,
                }
            }

''')
ok('src-opt-extend', SRC='''            let mut seal_sources = BTreeMap::new();
            for (pos, def) in block.defined_seals.iter() {
                seal_sources.extend(def.to_src().map(|src| (CellAddr::new(opid, *pos), src)));
            }

''')
ok('src-zip', SRC='''            let addrs = block.defined_seals.keys().map(|pos| CellAddr::new(opid, *pos));
            let sources = block.defined_seals.values().map(|seal| seal.to_src());
            let mut seal_sources = addrs
                .zip(sources)
                .filter_map(|(addr, src)| Some((addr, src?)))
                .collect::<BTreeSet<_>>();

''')
ok('src-deferred', SRC='', WIT='''            let witness_id = if let Some(witness) = block.witness {
                let msg = opid.to_byte_array();
                let pub_id = witness.published.pub_id();
                if let Err(e) = witness.verify_seals_closing(&closed_seals, msg.into()) {
                    return Err(VerificationError::SealsNotClosed(pub_id, opid, e));
                }
                self.apply_witness(opid, witness);
                Some(pub_id)
            } else {
                if !closed_seals.is_empty() {
                    return Err(VerificationError::NoWitness(opid));
                }
                None
            };
            for (pos, def) in &block.defined_seals {
                let seal = match (def.to_src(), witness_id) {
                    (Some(seal), _) => seal,
                    (None, Some(pub_id)) => def.resolve(pub_id),
                    (None, None) => continue,
                };
                seals.insert(CellAddr::new(opid, *pos), seal);
            }

''', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', ''))
ok('src-deferred-or-else', SRC='', WIT='''            let mut witness_id = None;
            match block.witness {
                Some(witness) => {
                    let pub_id = witness.published.pub_id();
                    witness
                        .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                        .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
                    self.apply_witness(opid, witness);
                    witness_id = Some(pub_id);
                }
                None if closed_seals.is_empty() => {}
                None => return Err(VerificationError::NoWitness(opid)),
            }
            seals.extend(block.defined_seals.iter().filter_map(|(pos, def)| {
                let seal = def.to_src().or_else(|| witness_id.map(|id| def.resolve(id)))?;
                Some((CellAddr::new(opid, *pos), seal))
            }));

''', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', ''))
ok('src-deferred-unwrap-or-else', WIT='''            if let Some(witness) = block.witness {
                let pub_id = witness.published.pub_id();
                witness
                    .verify_seals_closing(closed_seals.iter(), opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
                seal_sources = block
                    .defined_seals
                    .iter()
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.to_src().unwrap_or_else(|| seal.resolve(pub_id))))
                    .collect();
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

''')
ok('wit-guard', WIT='''            if block.witness.is_none() && !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }
            if let Some(witness) = block.witness {
                let pub_id = witness.published.pub_id();
                let result = witness.verify_seals_closing(&closed_seals, Seal::Message::from(opid.to_byte_array()));
                if let Err(err) = result {
                    return Err(VerificationError::SealsNotClosed(pub_id, opid, err));
                }
                for (pos, seal) in &block.defined_seals {
                    if seal.to_src().is_none() {
                        seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                    }
                }
                self.apply_witness(opid, witness);
            }

''')
ok('wit-inputs-empty', WIT=B['WIT'].replace('else if !closed_seals.is_empty()', 'else if !block_inputs_empty'),
   KNOWN='            let block_inputs_empty = block.operation.destructible_in.is_empty();\n' + B['KNOWN'])
ok('wit-len', WIT=B['WIT'].replace('else if !closed_seals.is_empty()', 'else if closed_seals.len() > 0'))
ok('wit-first', WIT=B['WIT'].replace('else if !closed_seals.is_empty()', 'else if closed_seals.first().is_some()'))
ok('wit-as-ref', WIT='''            if let Some(witness) = block.witness.as_ref() {
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                seal_sources.extend(
                    block
                        .defined_seals
                        .iter()
                        .filter(|(_, seal)| seal.to_src().is_none())
                        .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                );
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }
            if let Some(witness) = block.witness {
                self.apply_witness(opid, witness);
            }

''')
ok('wit-map-transpose', WIT='''            let verified = block
                .witness
                .map(|witness| {
                    match witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into()) {
                        Ok(_) => Ok(witness),
                        Err(e) => Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e)),
                    }
                })
                .transpose()?;
            match verified {
                Some(witness) => {
                    let pub_id = witness.published.pub_id();
                    seal_sources.extend(
                        block
                            .defined_seals
                            .iter()
                            .filter(|(_, seal)| seal.to_src().is_none())
                            .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                    );
                    self.apply_witness(opid, witness);
                }
                None if !closed_seals.is_empty() => return Err(VerificationError::NoWitness(opid)),
                None => (),
            }

''')
ok('wit-helper-result', WIT='''            let witness = check_witness::<Seal>(opid, block.witness, &closed_seals)?;
            if let Some(witness) = witness {
                let pub_id = witness.published.pub_id();
                seal_sources.extend(relative_seals::<Seal>(opid, &block.defined_seals, pub_id));
                self.apply_witness(opid, witness);
            }

''', ITEMS='''
fn check_witness<Seal: RgbSeal>(
    opid: Opid,
    witness: Option<SealWitness<Seal>>,
    closed: &[Seal],
) -> Result<Option<SealWitness<Seal>>, VerificationError<Seal>> {
    let Some(witness) = witness else {
        return if closed.is_empty() { Ok(None) } else { Err(VerificationError::NoWitness(opid)) };
    };
    match witness.verify_seals_closing(closed, opid.to_byte_array().into()) {
        Ok(()) => Ok(Some(witness)),
        Err(e) => Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e)),
    }
}

fn relative_seals<'a, Seal: RgbSeal>(
    opid: Opid,
    defined: &'a SmallOrdMap<u16, Seal::Definition>,
    pub_id: <Seal::PubWitness as PublishedWitness<Seal>>::PubId,
) -> impl Iterator<Item = (CellAddr, Seal)> + 'a
where
    <Seal::PubWitness as PublishedWitness<Seal>>::PubId: 'a,
{
    defined
        .iter()
        .filter(|(_, seal)| seal.to_src().is_none())
        .map(move |(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)))
}
''')
ok('closed-fold', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .try_fold(Vec::<Seal>::new(), |mut acc, input| {
                    let seal = seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?;
                    acc.push(seal);
                    Ok::<_, VerificationError<Seal>>(acc)
                })?;

''')
ok('closed-fold-result', CLOSED='''            let mut closed_seals = Vec::<Seal>::with_capacity(block.operation.destructible_in.len());
            let mut missing = None;
            for input in &block.operation.destructible_in {
                match seals.remove(&input.addr) {
                    Some(seal) => closed_seals.push(seal),
                    None => {
                        missing = Some(input.addr);
                        break;
                    }
                }
            }
            if let Some(addr) = missing {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
ok('closed-extend', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for addr in block.operation.destructible_in.iter().map(|input| input.addr) {
                closed_seals.extend(Some(seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?));
            }

''')
ok('closed-shadow', CLOSED='''            let inputs = &block.operation.destructible_in;
            let mut closed_seals = Vec::new();
            for no in 0..inputs.len() {
                let addr = inputs[no].addr;
                let seal = seals.remove(&addr);
                let seal = match seal {
                    None => return Err(VerificationError::SealUnknown(addr)),
                    Some(seal) => seal,
                };
                closed_seals.push(seal);
            }

''')
ok('closed-iter-next-loop', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let mut inputs = block.operation.destructible_in.iter();
            loop {
                let input = match inputs.next() {
                    Some(input) => input,
                    None => break,
                };
                if let Some(seal) = seals.remove(&input.addr) {
                    closed_seals.push(seal);
                } else {
                    return Err(VerificationError::SealUnknown(input.addr));
                }
            }

''')
ok('match-zip-get', MATCH=B['MATCH'].replace('''.get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())''', '''.iter()
                    .nth(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())'''))
ok('match-usize-from', MATCH=B['MATCH'].replace('.get(*pos as usize)', '.get(usize::from(*pos))'))
ok('match-map', MATCH=B['MATCH'].replace('.is_some_and(|cell| cell.auth == seal.auth_token())', '.map(|cell| cell.auth == seal.auth_token()).unwrap_or(false)'))
ok('match-map-some', MATCH=B['MATCH'].replace('.is_some_and(|cell| cell.auth == seal.auth_token())', '.map(|cell| cell.auth) == Some(seal.auth_token())'))
ok('match-matches', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                matches!(block.operation.destructible_out.get(*pos as usize), Some(cell) if cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-position', MATCH='''            let mismatch = block.defined_seals.iter().position(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).map_or(true, |cell| cell.auth != seal.auth_token())
            });
            if mismatch.is_some() {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-filter-next', MATCH='''            let mut wrong = block.defined_seals.iter().filter(|(pos, seal)| {
                let cell = block.operation.destructible_out.get(**pos as usize);
                !cell.is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if wrong.next().is_some() {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-auths-vec', MATCH='''            let auths = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
            for (pos, seal) in &block.defined_seals {
                if auths.get(*pos as usize) != Some(&seal.auth_token()) {
                    let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                    return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
                }
            }

''')
ok('match-tokens-map', MATCH='''            let tokens = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| (*pos, seal.auth_token()))
                .collect::<BTreeMap<_, _>>();
            let matching = tokens.iter().all(|(pos, token)| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == *token)
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-len-first', MATCH='''            let outputs = &block.operation.destructible_out;
            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                let pos = *pos as usize;
                matching &= pos < outputs.len() && outputs[pos].auth == seal.auth_token();
            }
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('mismatch-err-fn', SETS='', MATCH='''            if let Some(err) = mismatch::<Seal>(opid, &block) {
                return Err(err);
            }

''', ITEMS='''
fn mismatch<Seal: RgbSeal>(opid: Opid, block: &OperationSeals<Seal>) -> Option<VerificationError<Seal>> {
    let outputs = &block.operation.destructible_out;
    let is_ok = |(pos, seal): (&u16, &Seal::Definition)| {
        outputs.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
    };
    if block.defined_seals.iter().all(is_ok) {
        return None;
    }
    let defined = outputs.iter().map(|cell| cell.auth).collect();
    let reported = block.defined_seals.values().map(RgbSealDef::auth_token).collect();
    let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
    Some(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources })
}
''')
ok('known-if-not', KNOWN='''            let mut operation = None;
            if !self.is_known(opid) {
                operation = Some(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?);
            }

''')
ok('known-vm-explicit', KNOWN='''            let operation = match self.is_known(opid) {
                true => None,
                false => match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(verified) => Some(verified),
                    Err(err) => return Err(VerificationError::Vm(err)),
                },
            };

''')
ok('known-helper', KNOWN='''            let operation = verify_new::<Seal, Self>(self, contract_id, opid, block.operation)?;

''', ITEMS='''
fn verify_new<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>(
    contract: &C,
    contract_id: ContractId,
    opid: Opid,
    operation: Operation,
) -> Result<Option<VerifiedOperation>, CallError> {
    if contract.is_known(opid) {
        return Ok(None);
    }
    contract
        .codex()
        .verify(contract_id, operation, contract.memory(), contract.repo())
        .map(Some)
}
''')
ok('known-bool-then', KNOWN='''            let operation = (!self.is_known(opid))
                .then(|| self.codex().verify(contract_id, block.operation, self.memory(), self.repo()))
                .transpose()?;

''')
ok('fin-match-tuple', FIN='''            seals.extend(seal_sources);
            match (is_genesis, operation) {
                (true, _) => is_genesis = false,
                (false, Some(operation)) => self.apply_operation(operation),
                (false, None) => {}
            }

''')
ok('fin-filter', FIN='''            seals.extend(seal_sources);
            if let Some(operation) = operation.filter(|_| !is_genesis) {
                self.apply_operation(operation);
            }
            is_genesis = false;

''')
ok('fin-insert-loop', FIN=B['FIN'].replace('seals.extend(seal_sources);', 'for (addr, seal) in seal_sources {\n                seals.insert(addr, seal);\n            }'))
ok('fin-seals-last', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', ''), SEALS=B['SEALS'].replace(
    '            if !block.defined_seals.is_empty() {', '            seals.extend(seal_sources);\n            if !block.defined_seals.is_empty() {'))
ok('fin-iter-for-each', FIN=B['FIN'].replace('seals.extend(seal_sources);', 'seal_sources.into_iter().for_each(|(addr, seal)| {\n                seals.insert(addr, seal);\n            });'))
ok('seals-len', SEALS=B['SEALS'].replace('!block.defined_seals.is_empty()', 'block.defined_seals.len() != 0'))
ok('seals-let', SEALS='''            let OperationSeals { defined_seals, .. } = block;
            if defined_seals.is_empty() {
                continue;
            }
            self.apply_seals(opid, defined_seals);
        }

''', WIT=B['WIT'].replace('block.witness', 'block.witness.take()'), KNOWN=B['KNOWN'].replace('block.operation,', 'block.operation.clone(),'))
ok('names', EVAL=BODY.replace('is_genesis', 'first').replace('closed_seals', 'spent').replace('seal_sources', 'fresh').replace('contract_id,', 'contract_id,'))
ok('opid-commit-id', OPID='            let opid = commit_verify::CommitId::commit_id(&block.operation);\n')
ok('opid-ref', OPID='            let operation = &block.operation;\n            let opid = operation.opid();\n')
ok('gen-err-var', GEN=B['GEN'].replace('''                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
''', '''                let commits = codex_id.to_byte_array() == block.operation.contract_id.to_byte_array();
                commits.then_some(()).ok_or(VerificationError::NoCodexCommitment)?;
'''))
ok('gen-struct-update', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block = OperationSeals {
                    operation: Operation { contract_id, ..block.operation },
                    ..block
                };
            }
''')
ok('gen-method', GEN='''            if is_genesis {
                block.bind_genesis(codex_id, contract_id)?;
            }
''', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn bind_genesis(
        &mut self,
        codex_id: ultrasonic::CodexId,
        contract_id: ContractId,
    ) -> Result<(), VerificationError<Seal>> {
        let commitment = self.operation.contract_id.to_byte_array();
        if commitment != codex_id.to_byte_array() {
            Err(VerificationError::NoCodexCommitment)
        } else {
            self.operation.contract_id = contract_id;
            Ok(())
        }
    }
}
''')
ok('peel-first', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut seals = BTreeMap::<CellAddr, Seal>::new();

        let Some(mut genesis) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? else {
            return Ok(());
        };
        if genesis.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        genesis.operation.contract_id = contract_id;
        process::<Seal, Self>(self, contract_id, &mut seals, genesis, true)?;
        while let Some(block) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? {
            process::<Seal, Self>(self, contract_id, &mut seals, block, false)?;
        }
        Ok(())
''', ITEMS='''
fn process<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>(
    this: &mut C,
    contract_id: ContractId,
    seals: &mut BTreeMap<CellAddr, Seal>,
    block: OperationSeals<Seal>,
    is_genesis: bool,
) -> Result<(), VerificationError<Seal>> {
''' + ''.join(B[k] for k in ('OPID', 'SETS', 'MATCH', 'CLOSED', 'KNOWN', 'SRC', 'WIT')).replace('self', 'this') + '''
    seals.extend(seal_sources);
    if !is_genesis {
        if let Some(operation) = operation {
            this.apply_operation(operation);
        }
    }
    if !block.defined_seals.is_empty() {
        this.apply_seals(opid, block.defined_seals);
    }
    Ok(())
}
''')
ok('phases', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut genesis = true;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();
        loop {
            let next = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
            let Some(mut block) = next else { break };
            if genesis {
                phase::commit::<Seal>(&mut block, codex_id, contract_id)?;
            }
            let opid = block.operation.opid();
            phase::definitions(&block, opid)?;
            let closed = phase::spend(&block, &mut seals)?;
            let verified = if self.is_known(opid) {
                None
            } else {
                Some(self.codex().verify(contract_id, block.operation.clone(), self.memory(), self.repo())?)
            };
            let witness_id = phase::close(&block, opid, &closed)?;
            phase::define(&block, opid, witness_id, &mut seals);
            if let Some(witness) = block.witness {
                self.apply_witness(opid, witness);
            }
            match verified {
                Some(op) if !genesis => self.apply_operation(op),
                _ => {}
            }
            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
            genesis = false;
        }
        Ok(())
''', ITEMS='''
mod phase {
    use super::*;

    type Res<T, Seal> = Result<T, VerificationError<Seal>>;
    type PubId<Seal> = <<Seal as single_use_seals::SingleUseSeal>::PubWitness as PublishedWitness<Seal>>::PubId;

    pub(super) fn commit<Seal: RgbSeal>(
        block: &mut OperationSeals<Seal>,
        codex_id: ultrasonic::CodexId,
        contract_id: ContractId,
    ) -> Res<(), Seal> {
        let field = &mut block.operation.contract_id;
        if field.to_byte_array() != codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        *field = contract_id;
        Ok(())
    }

    pub(super) fn definitions<Seal: RgbSeal>(block: &OperationSeals<Seal>, opid: Opid) -> Res<(), Seal> {
        let out = &block.operation.destructible_out;
        for (&pos, seal) in &block.defined_seals {
            let found = match out.get(pos as usize) {
                Some(cell) => cell.auth == seal.auth_token(),
                None => false,
            };
            if !found {
                return Err(VerificationError::SealsDefinitionMismatch {
                    opid,
                    reported: block.defined_seals.values().map(|s| s.auth_token()).collect(),
                    defined: out.iter().map(|c| c.auth).collect(),
                    sources: block.defined_seals.iter().map(|(p, s)| (*p, s.to_string())).collect(),
                });
            }
        }
        Ok(())
    }

    pub(super) fn spend<Seal: RgbSeal>(
        block: &OperationSeals<Seal>,
        seals: &mut BTreeMap<CellAddr, Seal>,
    ) -> Res<Vec<Seal>, Seal> {
        block
            .operation
            .destructible_in
            .iter()
            .map(|input| seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
            .collect()
    }

    pub(super) fn close<Seal: RgbSeal>(
        block: &OperationSeals<Seal>,
        opid: Opid,
        closed: &[Seal],
    ) -> Res<Option<PubId<Seal>>, Seal> {
        match &block.witness {
            Some(witness) => {
                let id = witness.published.pub_id();
                match witness.verify_seals_closing(closed, opid.to_byte_array().into()) {
                    Ok(()) => Ok(Some(id)),
                    Err(e) => Err(VerificationError::SealsNotClosed(id, opid, e)),
                }
            }
            None if closed.is_empty() => Ok(None),
            None => Err(VerificationError::NoWitness(opid)),
        }
    }

    pub(super) fn define<Seal: RgbSeal>(
        block: &OperationSeals<Seal>,
        opid: Opid,
        id: Option<PubId<Seal>>,
        seals: &mut BTreeMap<CellAddr, Seal>,
    ) {
        for (pos, def) in &block.defined_seals {
            let addr = CellAddr::new(opid, *pos);
            if let Some(seal) = def.to_src() {
                seals.insert(addr, seal);
            } else if let Some(id) = id {
                seals.insert(addr, def.resolve(id));
            }
        }
    }
}
''')
ok('hash-registry-btree-entry', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                let addr = input.addr;
                if !seals.contains_key(&addr) {
                    return Err(VerificationError::SealUnknown(addr));
                }
                closed_seals.extend(seals.remove(&addr));
            }

''')
ok('recursion', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut is_genesis = true;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();
        let mut next = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
        while let Some(mut block) = next {
''' + ''.join(B[k] for k in ('GEN', 'OPID', 'SETS', 'MATCH', 'CLOSED', 'KNOWN', 'SRC', 'WIT', 'FIN')) + '''
            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
            next = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
        }
        Ok(())
''')
ok('labelled', EVAL=BODY.replace('''        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
''', '''        'stream: loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break 'stream,
                Err(e) => return Err(VerificationError::Stream(Box::new(e))),
            };
'''))
ok('iter-successors', EVAL=BODY.replace('''        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
''', '''        let mut next = || {
            reader
                .read_operation()
                .map_err(|e| VerificationError::<Seal>::Stream(Box::new(e)))
        };
        while let Some(mut block) = next()? {
'''))
ok('opid-method', OPID='            let opid = block.id();\n', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    #[inline]
    fn id(&self) -> Opid { self.operation.opid() }
}
''')
ok('addr-closure', OPID=B['OPID'] + '            let addr = |pos: &u16| CellAddr::new(opid, *pos);\n',
   SRC=B['SRC'].replace('(CellAddr::new(opid, *pos), seal)', '(addr(pos), seal)'),
   WIT=B['WIT'].replace('(CellAddr::new(opid, *pos), seal.resolve(pub_id))', '(addr(pos), seal.resolve(pub_id))'))
ok('expect-less', SEALS='''            let has_seals = !block.defined_seals.is_empty();
            if has_seals {
                let seals_to_report = block.defined_seals;
                self.apply_seals(opid, seals_to_report);
            }
        }

''')
ok('debug-asserts', FIN='            debug_assert!(block.defined_seals.len() <= u16::MAX as usize + 1);\n' + B['FIN'])
# seals.rs
ok('auth-slice-try', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut token = [0u8; 30];
            for (dst, src) in token.iter_mut().zip(id.iter()) {
                *dst = *src;
            }
            AuthToken::from_byte_array(token)
''')
ok('auth-clone-from', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            let len = shortened_id.len();
            shortened_id.clone_from_slice(&id[..len]);
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-for-enumerate', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for (i, byte) in shortened_id.iter_mut().enumerate() {
                *byte = id[i];
            }
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-get', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(id.get(0..30).expect("32-byte id"));
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-from-into', AUTH='''            let id: [u8; 32] = self.commit_id().to_byte_array();
            let shortened: [u8; 30] = core::array::from_fn(|no| id[no]);
            shortened.into()
''')
ok('auth-commit-id-path', AUTH='''            let id = CommitId::commit_id(self);
            let bytes = id.to_byte_array();
            let (head, _tail) = bytes.split_at(30);
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(head);
            AuthToken::from_byte_array(shortened_id)
''')
ok('res-destructure', RES='''            let WTxoSeal { primary, secondary } = *self;
            let primary = match primary {
                WOutpoint::Wout(vout) => Outpoint { txid: witness_id, vout },
                WOutpoint::Extern(outpoint) => outpoint,
            };
            TxoSeal { primary, secondary }
''')
ok('res-via-tosrc', RES='''            self.to_src().unwrap_or_else(|| match self.primary {
                WOutpoint::Wout(wout) => TxoSeal { primary: Outpoint::new(witness_id, wout), secondary: self.secondary },
                WOutpoint::Extern(primary) => TxoSeal { primary, secondary: self.secondary },
            })
''')
ok('res-shared', RES='''            let primary = outpoint(&self.primary, Some(witness_id)).unwrap_or(Outpoint::coinbase());
            TxoSeal { primary, secondary: self.secondary }
''', TOSRC='''            let primary = outpoint(&self.primary, None)?;
            Some(TxoSeal { primary, secondary: self.secondary })
''', SITEMS='''    fn outpoint(primary: &WOutpoint, witness_id: Option<Txid>) -> Option<Outpoint> {
        match *primary {
            WOutpoint::Wout(wout) => witness_id.map(|txid| Outpoint::new(txid, wout)),
            WOutpoint::Extern(outpoint) => Some(outpoint),
        }
    }
''')
ok('res-with', RES='''            let with_primary = |primary| TxoSeal { primary, secondary: self.secondary };
            match &self.primary {
                WOutpoint::Extern(outpoint) => with_primary(*outpoint),
                WOutpoint::Wout(wout) => with_primary(Outpoint::new(witness_id, *wout)),
            }
''')
ok('tosrc-if-let', TOSRC='''            if let WOutpoint::Extern(primary) = self.primary {
                return Some(TxoSeal { primary, secondary: self.secondary });
            }
            None
''')
ok('tosrc-map', TOSRC='''            let outpoint = match self.primary {
                WOutpoint::Extern(ref outpoint) => Some(outpoint),
                _ => None,
            };
            outpoint.map(|outpoint| TxoSeal { primary: *outpoint, secondary: self.secondary.clone() })
''')
ok('clone-from-fields', CLONE='''        let Self { ref operation, ref defined_seals, ref witness } = *self;
        Self { operation: operation.clone(), defined_seals: defined_seals.clone(), witness: witness.clone() }
''')
ok('clone-to-owned', CLONE='''        OperationSeals {
            witness: self.witness.as_ref().cloned(),
            defined_seals: Clone::clone(&self.defined_seals),
            operation: self.operation.to_owned(),
        }
''')
ok('clone-match', CLONE='''        let witness = match &self.witness {
            Some(witness) => Some(witness.clone()),
            None => None,
        };
        Self { operation: self.operation.clone(), defined_seals: self.defined_seals.clone(), witness }
''')
