"""Variants of the source with the same behaviour: no check may report any of them."""
import base

VARIANTS = {}
BODY = base.EVAL


def ok(name, **kw):
    VARIANTS[name] = kw


ok('base')
ok('loop-match', HEAD='''        loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break,
                Err(e) => return Err(VerificationError::Stream(Box::new(e))),
            };
''')
ok('loop-let-else', HEAD='''        loop {
            let next = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
            let Some(mut block) = next else {
                return Ok(());
            };
''', SUB=[('''                self.apply_seals(opid, block.defined_seals);
            }
        }

        Ok(())
''', '''                self.apply_seals(opid, block.defined_seals);
            }
        }
''')])
ok('first-outside-helper', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut seals = BTreeMap::<CellAddr, Seal>::new();

        let Some(mut block) = next_op(&mut reader)? else { return Ok(()) };
        if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        block.operation.contract_id = contract_id;
        step(self, &mut seals, block, contract_id, true)?;
        while let Some(block) = next_op(&mut reader)? {
            step(self, &mut seals, block, contract_id, false)?;
        }
        Ok(())
''', ITEMS='''
fn next_op<R: ReadOperation>(reader: &mut R) -> Result<Option<OperationSeals<R::Seal>>, VerificationError<R::Seal>> {
    reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))
}

fn step<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>(
    contract: &mut C,
    seals: &mut BTreeMap<CellAddr, Seal>,
    block: OperationSeals<Seal>,
    contract_id: ContractId,
    genesis: bool,
) -> Result<(), VerificationError<Seal>> {
    let OperationSeals { operation, defined_seals, witness } = block;
    let opid = operation.opid();
    for (pos, seal) in defined_seals.iter() {
        let ok = match operation.destructible_out.get(*pos as usize) {
            Some(cell) => cell.auth == seal.auth_token(),
            None => false,
        };
        if !ok {
            return Err(VerificationError::SealsDefinitionMismatch {
                opid,
                reported: defined_seals.values().map(|s| s.auth_token()).collect(),
                defined: operation.destructible_out.iter().map(|c| c.auth).collect(),
                sources: defined_seals.iter().map(|(p, s)| (*p, s.to_string())).collect(),
            });
        }
    }
    let closed = operation
        .destructible_in
        .iter()
        .map(|input| seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
        .collect::<Result<Vec<_>, _>>()?;
    let known = contract.is_known(opid);
    let verified = if !known {
        Some(contract.codex().verify(contract_id, operation, contract.memory(), contract.repo())?)
    } else {
        None
    };
    let pub_id = match witness {
        Some(witness) => {
            let id = witness.published.pub_id();
            if let Err(e) = witness.verify_seals_closing(&closed, opid.to_byte_array().into()) {
                return Err(VerificationError::SealsNotClosed(id, opid, e));
            }
            contract.apply_witness(opid, witness);
            Some(id)
        }
        None if closed.is_empty() => None,
        None => return Err(VerificationError::NoWitness(opid)),
    };
    for (pos, def) in &defined_seals {
        let addr = CellAddr::new(opid, *pos);
        if let Some(seal) = def.to_src() {
            seals.insert(addr, seal);
        } else if let Some(id) = pub_id {
            seals.insert(addr, def.resolve(id));
        }
    }
    if !genesis {
        if let Some(op) = verified {
            contract.apply_operation(op);
        }
    }
    if !defined_seals.is_empty() {
        contract.apply_seals(opid, defined_seals);
    }
    Ok(())
}
''')
ok('genesis-helper', GEN='''            if is_genesis {
                commit_genesis(&mut block.operation, contract_id, codex_id.to_byte_array())?;
            }
''', ITEMS='''
fn commit_genesis<Seal: RgbSeal>(op: &mut Operation, id: ContractId, codex: [u8; 32]) -> Result<(), VerificationError<Seal>> {
    if op.contract_id.to_byte_array() == codex {
        op.contract_id = id;
        Ok(())
    } else {
        Err(VerificationError::NoCodexCommitment)
    }
}
''')
ok('counter', PRE='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();

        let mut op_no = 0usize;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();

''', GEN='''            let is_genesis = op_no == 0;
            op_no = op_no.saturating_add(1);
            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN='''            seals.extend(seal_sources);
            match operation {
                Some(operation) if !is_genesis => self.apply_operation(operation),
                _ => {}
            }

''')
ok('genesis-take', PRE='''        let contract_id = self.contract_id();
        let mut codex_id = Some(self.codex().codex_id());

        let mut seals = BTreeMap::<CellAddr, Seal>::new();

''', GEN='''            let genesis_codex = codex_id.take();
            if let Some(codex_id) = genesis_codex {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN='''            seals.extend(seal_sources);
            if genesis_codex.is_none() {
                if let Some(operation) = operation {
                    self.apply_operation(operation);
                }
            }

''')
ok('match-any', MATCH='''            let mismatch = block.defined_seals.iter().any(|(pos, seal)| {
                let Some(cell) = block.operation.destructible_out.get(*pos as usize) else { return true };
                cell.auth != seal.auth_token()
            });
            if mismatch {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-helper-method', SETS='', MATCH='''            block.check_seals(opid)?;

''', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    /// Checks the seals.
    fn check_seals(&self, opid: Opid) -> Result<(), VerificationError<Seal>> {
        let matching = self.defined_seals.iter().all(|(pos, seal)| self.matches(*pos, seal));
        if matching {
            return Ok(());
        }
        let defined = self.operation.destructible_out.iter().map(|cell| cell.auth).collect::<BTreeSet<_>>();
        let mut reported = BTreeSet::new();
        let mut sources = BTreeMap::new();
        for (pos, seal) in &self.defined_seals {
            reported.insert(seal.auth_token());
            sources.insert(*pos, seal.to_string());
        }
        Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources })
    }

    fn matches(&self, pos: u16, seal: &Seal::Definition) -> bool {
        let token = seal.auth_token();
        match self.operation.destructible_out.iter().nth(pos as usize) {
            Some(cell) if cell.auth == token => true,
            _ => false,
        }
    }
}
''')
ok('match-map-or', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out.get(usize::from(*pos)).map_or(false, |cell| cell.auth == seal.auth_token())
            });
            if !matching {
                return Err(VerificationError::SealsDefinitionMismatch {
                    opid,
                    reported,
                    defined,
                    sources: BTreeMap::from_iter(block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string()))),
                });
            }

''')
ok('match-option-eq', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                let expected = block.operation.destructible_out.get(*pos as usize).map(|cell| cell.auth);
                expected == Some(seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-loop-flag', MATCH='''            let mut matching = true;
            for (pos, seal) in block.defined_seals.iter() {
                let token = seal.auth_token();
                let cell = block.operation.destructible_out.get(*pos as usize);
                matching &= cell.is_some_and(|cell| cell.auth == token);
            }
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-loop-break', MATCH='''            let mut matching = true;
            for (pos, seal) in block.defined_seals.iter() {
                if !block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token()) {
                    matching = false;
                    break;
                }
            }
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-index', MATCH='''            let outs = &block.operation.destructible_out;
            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                let pos = *pos as usize;
                pos < outs.len() && outs[pos].auth == seal.auth_token()
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-find', MATCH='''            let wrong = block.defined_seals.iter().find(|(pos, seal)| {
                block.operation.destructible_out.get(**pos as usize).map(|cell| cell.auth != seal.auth_token()).unwrap_or(true)
            });
            if wrong.is_some() {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-filter-count', MATCH='''            let wrong = block.defined_seals.iter().filter(|(pos, seal)| {
                block.operation.destructible_out.get(**pos as usize).is_none_or(|cell| cell.auth != seal.auth_token())
            }).count();
            if wrong > 0 {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-collect-wrong', MATCH='''            let wrong: Vec<u16> = block.defined_seals.iter().filter(|(pos, seal)| {
                !block.operation.destructible_out.get(**pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
            }).map(|(pos, _)| *pos).collect();
            if !wrong.is_empty() {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('sets-loops', SETS='''            let mut defined = BTreeSet::new();
            for cell in &block.operation.destructible_out {
                defined.insert(cell.auth);
            }
            let mut reported = BTreeSet::new();
            for seal in block.defined_seals.values() {
                reported.insert(seal.auth_token());
            }
''')
ok('closed-collect', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| {
                    seals
                        .remove(&input.addr)
                        .ok_or(VerificationError::SealUnknown(input.addr))
                })
                .collect::<Result<Vec<Seal>, VerificationError<Seal>>>()?;

''')
ok('closed-match', CLOSED='''            let mut closed_seals = Vec::with_capacity(block.operation.destructible_in.len());
            for input in block.operation.destructible_in.iter() {
                let addr = input.addr;
                match seals.remove(&addr) {
                    Some(seal) => closed_seals.push(seal),
                    None => return Err(VerificationError::SealUnknown(addr)),
                }
            }

''')
ok('closed-try-fold', CLOSED='''            let closed_seals = block.operation.destructible_in.iter().try_fold(Vec::<Seal>::new(), |mut acc, input| {
                let seal = seals.remove(&input.addr).ok_or_else(|| VerificationError::SealUnknown(input.addr))?;
                acc.push(seal);
                Ok::<_, VerificationError<Seal>>(acc)
            })?;

''')
ok('closed-helper', CLOSED='''            let closed_seals = close_inputs(&block.operation, &mut seals)?;

''', ITEMS='''
fn close_inputs<Seal: RgbSeal>(
    operation: &Operation,
    seals: &mut BTreeMap<CellAddr, Seal>,
) -> Result<Vec<Seal>, VerificationError<Seal>> {
    let mut closed = Vec::new();
    for input in &operation.destructible_in {
        let Some(seal) = seals.remove(&input.addr) else {
            return Err(VerificationError::SealUnknown(input.addr));
        };
        closed.push(seal);
    }
    Ok(closed)
}
''')
ok('closed-index-loop', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let mut i = 0usize;
            while i < block.operation.destructible_in.len() {
                let addr = block.operation.destructible_in[i].addr;
                let seal = seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?;
                closed_seals.push(seal);
                i += 1;
            }

''')
ok('closed-entry', USE='use alloc::collections::btree_map::Entry;\n', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                match seals.entry(input.addr) {
                    Entry::Occupied(entry) => closed_seals.push(entry.remove()),
                    Entry::Vacant(_) => return Err(VerificationError::SealUnknown(input.addr)),
                }
            }

''')
ok('closed-remove-entry', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                if let Some((_, seal)) = seals.remove_entry(&input.addr) {
                    closed_seals.push(seal);
                    continue;
                }
                return Err(VerificationError::SealUnknown(input.addr));
            }

''')
ok('known-match', KNOWN='''            let operation = match self.is_known(opid) {
                true => None,
                false => Some(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?),
            };

''')
ok('known-then', KNOWN='''            let known = self.is_known(opid);
            let operation = (!known)
                .then(|| self.codex().verify(contract_id, block.operation, self.memory(), self.repo()))
                .transpose()?;

''')
ok('known-map-err', KNOWN='''            let mut operation = None;
            if !self.is_known(opid) {
                let codex = self.codex();
                let memory = self.memory();
                let repo = self.repo();
                match codex.verify(contract_id, block.operation, memory, repo) {
                    Ok(op) => operation = Some(op),
                    Err(err) => return Err(VerificationError::Vm(err)),
                }
            }

''')
ok('known-early', OPID='''            let opid = block.operation.opid();
            let is_known = self.is_known(opid);
''', KNOWN='''            let operation = if is_known {
                None
            } else {
                let verified = self
                    .codex()
                    .verify(contract_id, block.operation, self.memory(), self.repo())
                    .map_err(VerificationError::from)?;
                Some(verified)
            };

''')
ok('known-clone', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                let op = block.operation.clone();
                Some(self.codex().verify(contract_id, op, self.memory(), self.repo())?)
            };

''')
ok('wit-match', WIT='''            match block.witness {
                Some(witness) => {
                    let pub_id = witness.published.pub_id();
                    witness
                        .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                        .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
                    for (pos, seal) in &block.defined_seals {
                        if seal.to_src().is_none() {
                            seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                        }
                    }
                    self.apply_witness(opid, witness);
                }
                None => {
                    if closed_seals.len() > 0 {
                        return Err(VerificationError::NoWitness(opid));
                    }
                }
            }

''')
ok('wit-early-return', WIT='''            if block.witness.is_none() && !block.operation_has_no_inputs(&closed_seals) {
                return Err(VerificationError::NoWitness(opid));
            }
            if let Some(witness) = block.witness.take() {
                let msg = opid.to_byte_array();
                let res = witness.verify_seals_closing(&closed_seals, msg.into());
                let pub_id = witness.published.pub_id();
                if let Err(e) = res {
                    return Err(VerificationError::SealsNotClosed(pub_id, opid, e));
                }
                seal_sources.extend(
                    block
                        .defined_seals
                        .iter()
                        .filter_map(|(pos, seal)| match seal.to_src() {
                            Some(_) => None,
                            None => Some((CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                        }),
                );
                self.apply_witness(opid, witness);
            }

''', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn operation_has_no_inputs(&self, closed: &[Seal]) -> bool { closed.is_empty() }
}
''', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                let verified = self
                    .codex()
                    .verify(contract_id, block.operation.clone(), self.memory(), self.repo())?;
                Some(verified)
            };

''')
ok('src-map', SRC='''            let mut seal_sources = BTreeMap::new();
            for (pos, seal) in block.defined_seals.iter() {
                if let Some(src) = seal.to_src() {
                    seal_sources.insert(CellAddr::new(opid, *pos), src);
                }
            }

''')
ok('src-after', SRC='', WIT='''            let pub_id = if let Some(witness) = block.witness {
                let id = witness.published.pub_id();
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(id, opid, e))?;
                self.apply_witness(opid, witness);
                Some(id)
            } else if closed_seals.is_empty() {
                None
            } else {
                return Err(VerificationError::NoWitness(opid));
            };

''', FIN='''            seals.extend(block.defined_seals.iter().filter_map(|(pos, seal)| {
                let src = seal.to_src().or_else(|| pub_id.map(|id| seal.resolve(id)))?;
                Some((CellAddr::new(opid, *pos), src))
            }));
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }

''')
ok('src-partition', SRC='''            let (complete, relative): (Vec<_>, Vec<_>) = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal, seal.to_src()))
                .partition(|(_, _, src)| src.is_some());
            let mut seal_sources: BTreeMap<CellAddr, Seal> =
                complete.into_iter().filter_map(|(addr, _, src)| src.map(|src| (addr, src))).collect();

''', WIT='''            if let Some(witness) = block.witness {
                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                for (addr, seal, _) in relative {
                    seal_sources.insert(addr, seal.resolve(pub_id));
                }
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

''')
ok('fin-flag', FIN='''            for (addr, seal) in seal_sources {
                seals.insert(addr, seal);
            }
            let first = core::mem::replace(&mut is_genesis, false);
            if let (false, Some(operation)) = (first, operation) {
                self.apply_operation(operation);
            }

''')
ok('seals-first', SEALS='''            let OperationSeals { defined_seals, .. } = block;
            if defined_seals.len() != 0 {
                self.apply_seals(opid, defined_seals);
            }
        }

''', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                Some(self.codex().verify(contract_id, block.operation.clone(), self.memory(), self.repo())?)
            };

''', WIT='''            if let Some(ref witness) = block.witness {
                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;

                let pub_id = witness.published.pub_id();
                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);

                self.apply_witness(opid, witness.clone_it());
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

'''.replace('ref witness', 'witness').replace('witness.clone_it()', 'witness').replace('block.witness {', 'block.witness.take() {'))
ok('noop', OPID='''            let opid = block.operation.opid();
            let _ = opid;
            debug_assert_eq!(block.operation.opid(), opid);
''', KNOWN='''            let _n = closed_seals.len();
            let operation = if self.is_known(opid) {
                None
            } else {
                let verified = self
                    .codex()
                    .verify(contract_id, block.operation, self.memory(), self.repo())?;
                Some(verified)
            };
            core::hint::black_box(&operation);

''')
ok('free-fn', EVAL='''        evaluate_inner(self, &mut reader)
''', ITEMS='''
fn evaluate_inner<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized, R: ReadOperation<Seal = Seal>>(
    this: &mut C,
    reader: &mut R,
) -> Result<(), VerificationError<Seal>> {
''' + BODY.replace('self', 'this').replace('&mut this', 'this') + '''}
''')
ok('auth-from-fn', AUTH='''            let id = self.commit_id().to_byte_array();
            AuthToken::from_byte_array(core::array::from_fn(|i| id[i]))
''')
ok('auth-try-into', AUTH='''            let id = self.commit_id().to_byte_array();
            let shortened_id: [u8; 30] = id[..30].try_into().expect("30 bytes");
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-loop', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for i in 0..30 {
                shortened_id[i] = id[i];
            }
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-zip', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for (dst, src) in shortened_id.iter_mut().zip(id.iter()) {
                *dst = *src;
            }
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-split', AUTH='''            let id = self.commit_id().to_byte_array();
            let (head, _) = id.split_at(30);
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(head);
            AuthToken::from_byte_array(shortened_id)
''')
ok('auth-first-chunk', AUTH='''            let id = self.commit_id().to_byte_array();
            let shortened_id = id.first_chunk::<30>().expect("32 bytes");
            AuthToken::from_byte_array(*shortened_id)
''')
ok('auth-const', SITEMS='''    const TOKEN_LEN: usize = 30;

    fn shorten(id: [u8; 32]) -> [u8; TOKEN_LEN] {
        let mut short = [0u8; TOKEN_LEN];
        short.copy_from_slice(&id[..TOKEN_LEN]);
        short
    }
''', AUTH='''            let id = self.commit_id();
            AuthToken::from_byte_array(shorten(id.to_byte_array()))
''')
ok('auth-clone-slice', AUTH='''            let commitment = self.commit_id();
            let id: [u8; 32] = commitment.to_byte_array();
            let mut shortened_id = [0u8; 30];
            let len = shortened_id.len();
            shortened_id.clone_from_slice(&id[..len]);
            AuthToken::from_byte_array(shortened_id)
''')
ok('res-if-let', RES='''            if let WOutpoint::Extern(outpoint) = self.primary {
                return TxoSeal { primary: outpoint, secondary: self.secondary };
            }
            let WOutpoint::Wout(vout) = self.primary else { unreachable!() };
            TxoSeal { primary: Outpoint::new(witness_id, vout), secondary: self.secondary }
''')
ok('res-to-src', RES='''            match self.to_src() {
                Some(src) => src,
                None => match self.primary {
                    WOutpoint::Wout(vout) => TxoSeal { primary: Outpoint { txid: witness_id, vout }, secondary: self.secondary },
                    WOutpoint::Extern(primary) => TxoSeal { primary, secondary: self.secondary },
                },
            }
''')
ok('tosrc-match', TOSRC='''            match &self.primary {
                WOutpoint::Wout(_) => None,
                WOutpoint::Extern(outpoint) => Some(TxoSeal { primary: *outpoint, secondary: self.secondary.clone() }),
            }
''')
ok('tosrc-let-else', TOSRC='''            let WOutpoint::Extern(primary) = self.primary else { return None };
            Some(with_primary(self, primary))
''', RES='''            let primary = match self.primary {
                WOutpoint::Wout(wout) => Outpoint::new(witness_id, wout),
                WOutpoint::Extern(outpoint) => outpoint,
            };
            with_primary(self, primary)
''', SITEMS='''    fn with_primary(def: &WTxoSeal, primary: Outpoint) -> TxoSeal {
        TxoSeal { primary, secondary: def.secondary }
    }
''')
ok('tosrc-then', SITEMS='''    fn external(p: WOutpoint) -> Option<Outpoint> {
        match p {
            WOutpoint::Extern(o) => Some(o),
            WOutpoint::Wout(_) => None,
        }
    }
''', TOSRC='''            external(self.primary).map(|primary| TxoSeal { primary, secondary: self.secondary })
''', RES='''            let secondary = self.secondary;
            let primary = external(self.primary).unwrap_or_else(|| match self.primary {
                WOutpoint::Wout(wout) => Outpoint::new(witness_id, wout),
                WOutpoint::Extern(o) => o,
            });
            TxoSeal { primary, secondary }
''')
ok('clone-destructure', CLONE='''        let Self { operation, defined_seals, witness } = self;
        let witness = match witness {
            Some(w) => Some(w.clone()),
            None => None,
        };
        Self { witness, operation: operation.clone(), defined_seals: defined_seals.clone() }
''')
ok('clone-as-ref', CLONE='''        OperationSeals {
            operation: Clone::clone(&self.operation),
            defined_seals: Clone::clone(&self.defined_seals),
            witness: self.witness.as_ref().map(|w| w.clone()),
        }
''')
ok('debug-impl', SUB=[('{ write!(f, "{}", self) }', '''{
        let text = self.to_string();
        f.write_str(&text)
    }''')])
ok('debug-impl2', SUB=[('{ write!(f, "{}", self) }', '{ core::fmt::Display::fmt(self, f) }')])
