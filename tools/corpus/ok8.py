"""Whole procedures written anew, in different architectures."""
from base import B, SB, EVAL

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


READ = '''            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))'''

ok('fold', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut first = true;
        core::iter::from_fn(|| {
            reader
                .read_operation()
                .map_err(|e| VerificationError::Stream(Box::new(e)))
                .transpose()
        })
        .try_fold(BTreeMap::<CellAddr, Seal>::new(), |mut seals, block| {
            let mut block: OperationSeals<Seal> = block?;
            let genesis = core::mem::replace(&mut first, false);
            if genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
            let opid = block.operation.opid();
            check_definitions(opid, &block)?;
            let closed = spend(&mut seals, &block.operation)?;
            let verified = match self.is_known(opid) {
                true => None,
                false => Some(
                    self.codex()
                        .verify(contract_id, block.operation, self.memory(), self.repo())?,
                ),
            };
            let mut pub_id = None;
            match block.witness {
                Some(witness) => {
                    witness
                        .verify_seals_closing(&closed, opid.to_byte_array().into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                    pub_id = Some(witness.published.pub_id());
                    self.apply_witness(opid, witness);
                }
                None if closed.is_empty() => {}
                None => return Err(VerificationError::NoWitness(opid)),
            }
            for (pos, def) in &block.defined_seals {
                let src = def.to_src().or_else(|| pub_id.map(|id| def.resolve(id)));
                if let Some(seal) = src {
                    seals.insert(CellAddr::new(opid, *pos), seal);
                }
            }
            if let Some(op) = verified.filter(|_| !genesis) {
                self.apply_operation(op);
            }
            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
            Ok(seals)
        })
        .map(|_| ())
''', ITEMS='''
fn check_definitions<S: RgbSeal>(opid: Opid, block: &OperationSeals<S>) -> Result<(), VerificationError<S>> {
    let out = &block.operation.destructible_out;
    for (pos, def) in &block.defined_seals {
        if out.get(*pos as usize).map(|cell| cell.auth) != Some(def.auth_token()) {
            return Err(VerificationError::SealsDefinitionMismatch {
                opid,
                reported: block.defined_seals.values().map(|def| def.auth_token()).collect(),
                defined: out.iter().map(|cell| cell.auth).collect(),
                sources: block.defined_seals.iter().map(|(pos, def)| (*pos, def.to_string())).collect(),
            });
        }
    }
    Ok(())
}

fn spend<S: RgbSeal>(seals: &mut BTreeMap<CellAddr, S>, op: &Operation) -> Result<Vec<S>, VerificationError<S>> {
    op.destructible_in
        .iter()
        .map(|input| seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
        .collect()
}
''')

ok('registry-trait', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();

        let mut is_genesis = true;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();
        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
            if is_genesis {
                block = block.bind_genesis(codex_id, contract_id)?;
            }
            let opid = block.operation.opid();
            block.ensure_definitions(opid)?;
            let closed = seals.spend_all(block.operation.destructible_in.iter().map(|i| i.addr))
                .map_err(VerificationError::SealUnknown)?;

            let OperationSeals { operation, defined_seals, witness } = block;
            let verified = if self.is_known(opid) {
                None
            } else {
                Some(self.codex().verify(contract_id, operation, self.memory(), self.repo())?)
            };

            let fixed = seals.additions(opid, &defined_seals, None);
            let relative = if let Some(witness) = witness {
                close(&witness, &closed, opid)?;
                let id = witness.published.pub_id();
                let found = seals.additions(opid, &defined_seals, Some(id));
                self.apply_witness(opid, witness);
                found
            } else if closed.is_empty() {
                Vec::new()
            } else {
                return Err(VerificationError::NoWitness(opid));
            };
            seals.extend(fixed);
            seals.extend(relative);
            if let (Some(verified), false) = (verified, is_genesis) {
                self.apply_operation(verified);
            }
            is_genesis = false;
            if !defined_seals.is_empty() {
                self.apply_seals(opid, defined_seals);
            }
        }
        Ok(())
''', ITEMS='''
trait Registry<S: RgbSeal> {
    fn spend_all(&mut self, addrs: impl Iterator<Item = CellAddr>) -> Result<Vec<S>, CellAddr>;
    fn additions(&self, opid: Opid, defs: &SmallOrdMap<u16, S::Definition>, id: Option<S::WitnessId>) -> Vec<(CellAddr, S)>;
}

impl<S: RgbSeal> Registry<S> for BTreeMap<CellAddr, S> {
    fn spend_all(&mut self, addrs: impl Iterator<Item = CellAddr>) -> Result<Vec<S>, CellAddr> {
        let mut spent = Vec::new();
        for addr in addrs {
            let Some(seal) = self.remove(&addr) else {
                return Err(addr);
            };
            spent.push(seal);
        }
        Ok(spent)
    }

    fn additions(&self, opid: Opid, defs: &SmallOrdMap<u16, S::Definition>, id: Option<S::WitnessId>) -> Vec<(CellAddr, S)> {
        let mut list = Vec::new();
        for (pos, def) in defs {
            let seal = match (def.to_src(), id) {
                (Some(src), _) => src,
                (None, Some(id)) => def.resolve(id),
                (None, None) => continue,
            };
            list.push((CellAddr::new(opid, *pos), seal));
        }
        list
    }
}

fn close<S: RgbSeal>(witness: &SealWitness<S>, closed: &[S], opid: Opid) -> Result<(), VerificationError<S>> {
    let res = witness.verify_seals_closing(closed, opid.to_byte_array().into());
    res.map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))
}

impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn bind_genesis(mut self, codex_id: ultrasonic::CodexId, contract_id: ContractId) -> Result<Self, VerificationError<Seal>> {
        if self.operation.contract_id.to_byte_array() == codex_id.to_byte_array() {
            self.operation.contract_id = contract_id;
            Ok(self)
        } else {
            Err(VerificationError::NoCodexCommitment)
        }
    }

    fn ensure_definitions(&self, opid: Opid) -> Result<(), VerificationError<Seal>> {
        let wrong = self.defined_seals.iter().find(|(pos, def)| {
            let cell = self.operation.destructible_out.get(**pos as usize);
            !matches!(cell, Some(cell) if cell.auth == def.auth_token())
        });
        match wrong {
            None => Ok(()),
            Some(_) => {
                let defined = self.operation.destructible_out.iter().map(|cell| cell.auth).collect();
                let (mut reported, mut sources) = (BTreeSet::new(), BTreeMap::new());
                for (pos, def) in &self.defined_seals {
                    reported.insert(def.auth_token());
                    sources.insert(*pos, def.to_string());
                }
                Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources })
            }
        }
    }
}
''')

ok('reject-enum', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut genesis = Some(codex_id);
        let mut seals = BTreeMap::<CellAddr, Seal>::new();
        loop {
            let block = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
            let Some(OperationSeals { mut operation, defined_seals, witness }) = block else {
                return Ok(());
            };
            let is_genesis = match genesis.take() {
                None => false,
                Some(id) if id.to_byte_array() == operation.contract_id.to_byte_array() => {
                    operation.contract_id = contract_id;
                    true
                }
                Some(_) => return Err(VerificationError::NoCodexCommitment),
            };
            let opid = operation.opid();
            let reject = |why: Reject<Seal>| why.into_error(opid);

            if let Some(pos) = misplaced::<Seal>(&operation, &defined_seals) {
                let _ = pos;
                return Err(reject(Reject::Definitions(&operation, &defined_seals)));
            }

            let mut closed = Vec::with_capacity(operation.destructible_in.len());
            for input in &operation.destructible_in {
                match seals.remove(&input.addr) {
                    Some(seal) => closed.push(seal),
                    None => return Err(reject(Reject::Unknown(input.addr))),
                }
            }

            let new = !self.is_known(opid);
            let operation = if new {
                let res = self.codex().verify(contract_id, operation, self.memory(), self.repo());
                Some(res?)
            } else {
                None
            };

            let id = witness.as_ref().map(|w| w.published.pub_id());
            match (&witness, closed.as_slice()) {
                (None, []) => {}
                (None, _) => return Err(reject(Reject::NoWitness)),
                (Some(w), closed) => {
                    if let Err(e) = w.verify_seals_closing(closed, opid.to_byte_array().into()) {
                        return Err(reject(Reject::Open(w.published.pub_id(), e)));
                    }
                }
            }
            if let Some(w) = witness {
                self.apply_witness(opid, w);
            }
            seals.extend(defined_seals.iter().filter_map(|(pos, def)| {
                let seal = match def.to_src() {
                    Some(seal) => Some(seal),
                    None => id.map(|id| def.resolve(id)),
                };
                Some((CellAddr::new(opid, *pos), seal?))
            }));
            if !is_genesis {
                if let Some(operation) = operation {
                    self.apply_operation(operation);
                }
            }
            if defined_seals.len() > 0 {
                self.apply_seals(opid, defined_seals);
            }
        }
''', ITEMS='''
enum Reject<'a, S: RgbSeal> {
    Definitions(&'a Operation, &'a SmallOrdMap<u16, S::Definition>),
    Unknown(CellAddr),
    NoWitness,
    Open(S::WitnessId, SealError<S>),
}

impl<S: RgbSeal> Reject<'_, S> {
    fn into_error(self, opid: Opid) -> VerificationError<S> {
        match self {
            Reject::Definitions(op, defs) => VerificationError::SealsDefinitionMismatch {
                opid,
                reported: defs.values().map(RgbSealDef::auth_token).collect(),
                defined: op.destructible_out.iter().map(|c| c.auth).collect(),
                sources: defs.iter().map(|(p, d)| (*p, d.to_string())).collect(),
            },
            Reject::Unknown(addr) => VerificationError::SealUnknown(addr),
            Reject::NoWitness => VerificationError::NoWitness(opid),
            Reject::Open(id, e) => VerificationError::SealsNotClosed(id, opid, e),
        }
    }
}

fn misplaced<S: RgbSeal>(op: &Operation, defs: &SmallOrdMap<u16, S::Definition>) -> Option<u16> {
    defs.iter()
        .filter(|(pos, def)| match op.destructible_out.get(usize::from(**pos)) {
            Some(cell) => cell.auth != def.auth_token(),
            None => true,
        })
        .map(|(pos, _)| *pos)
        .next()
}
''')

ok('split-check-apply', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut history = History::<Seal> { genesis_seen: false, seals: BTreeMap::new() };
        while let Some(block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
            let checked = history.check(&*self, contract_id, codex_id, block)?;
            let Checked { opid, witness, operation, defined } = checked;
            if let Some(witness) = witness {
                self.apply_witness(opid, witness);
            }
            if let Some(operation) = operation {
                self.apply_operation(operation);
            }
            if !defined.is_empty() {
                self.apply_seals(opid, defined);
            }
        }
        Ok(())
''', ITEMS='''
struct History<S: RgbSeal> {
    genesis_seen: bool,
    seals: BTreeMap<CellAddr, S>,
}

struct Checked<S: RgbSeal> {
    opid: Opid,
    witness: Option<SealWitness<S>>,
    operation: Option<VerifiedOperation>,
    defined: SmallOrdMap<u16, S::Definition>,
}

impl<S: RgbSeal> History<S> {
    fn check<C: ContractApi<S> + ?Sized>(
        &mut self,
        contract: &C,
        contract_id: ContractId,
        codex_id: ultrasonic::CodexId,
        block: OperationSeals<S>,
    ) -> Result<Checked<S>, VerificationError<S>> {
        let OperationSeals { mut operation, defined_seals, witness } = block;
        let first = !self.genesis_seen;
        if first {
            if operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                return Err(VerificationError::NoCodexCommitment);
            }
            operation.contract_id = contract_id;
            self.genesis_seen = true;
        }
        let opid = operation.opid();
        self.match_definitions(opid, &operation, &defined_seals)?;
        let closed = self.take_inputs(&operation)?;
        let verified = if contract.is_known(opid) {
            None
        } else {
            Some(
                contract
                    .codex()
                    .verify(contract_id, operation, contract.memory(), contract.repo())
                    .map_err(VerificationError::from)?,
            )
        };
        let id = self.check_witness(opid, &closed, witness.as_ref())?;
        self.register(opid, &defined_seals, id);
        Ok(Checked { opid, witness, operation: if first { None } else { verified }, defined: defined_seals })
    }

    fn match_definitions(
        &self,
        opid: Opid,
        op: &Operation,
        defs: &SmallOrdMap<u16, S::Definition>,
    ) -> Result<(), VerificationError<S>> {
        let tokens = op.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
        if defs
            .iter()
            .all(|(pos, def)| tokens.get(*pos as usize) == Some(&def.auth_token()))
        {
            return Ok(());
        }
        Err(VerificationError::SealsDefinitionMismatch {
            opid,
            reported: defs.values().map(|def| def.auth_token()).collect(),
            defined: tokens.into_iter().collect(),
            sources: defs.iter().map(|(pos, def)| (*pos, def.to_string())).collect(),
        })
    }

    fn take_inputs(&mut self, op: &Operation) -> Result<Vec<S>, VerificationError<S>> {
        let mut taken = Vec::new();
        for input in &op.destructible_in {
            taken.push(
                self.seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?,
            );
        }
        Ok(taken)
    }

    fn check_witness(
        &self,
        opid: Opid,
        closed: &[S],
        witness: Option<&SealWitness<S>>,
    ) -> Result<Option<S::WitnessId>, VerificationError<S>> {
        let Some(witness) = witness else {
            if closed.is_empty() {
                return Ok(None);
            }
            return Err(VerificationError::NoWitness(opid));
        };
        let id = witness.published.pub_id();
        match witness.verify_seals_closing(closed, S::Message::from(opid.to_byte_array())) {
            Ok(_) => Ok(Some(id)),
            Err(e) => Err(VerificationError::SealsNotClosed(id, opid, e)),
        }
    }

    fn register(&mut self, opid: Opid, defs: &SmallOrdMap<u16, S::Definition>, id: Option<S::WitnessId>) {
        for (pos, def) in defs {
            let seal = if let Some(seal) = def.to_src() {
                seal
            } else if let Some(id) = id {
                def.resolve(id)
            } else {
                continue;
            };
            self.seals.insert(CellAddr::new(opid, *pos), seal);
        }
    }
}
''')

ok('own-error', EVAL='''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut no = 0u64;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();
        while let Some(block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
            step(self, contract_id, (no == 0).then_some(codex_id), &mut seals, block)?;
            no = no.wrapping_add(1).max(1);
        }
        Ok(())
''', ITEMS='''
fn step<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>(
    contract: &mut C,
    contract_id: ContractId,
    commitment: Option<ultrasonic::CodexId>,
    seals: &mut BTreeMap<CellAddr, Seal>,
    mut block: OperationSeals<Seal>,
) -> Result<(), VerificationError<Seal>> {
    if let Some(codex_id) = commitment {
        if codex_id.to_byte_array() != block.operation.contract_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        block.operation.contract_id = contract_id;
    }
    let opid = block.operation.opid();
    let cells = &block.operation.destructible_out;
    let defs = &block.defined_seals;
    let fits = |(pos, def): (&u16, &Seal::Definition)| {
        cells.get(*pos as usize).into_iter().any(|cell| cell.auth == def.auth_token())
    };
    if !defs.iter().all(fits) {
        return Err(VerificationError::SealsDefinitionMismatch {
            opid,
            reported: defs.values().map(|def| def.auth_token()).collect(),
            defined: cells.iter().map(|cell| cell.auth).collect(),
            sources: defs.iter().map(|(pos, def)| (*pos, def.to_string())).collect(),
        });
    }
    let closed = block
        .operation
        .destructible_in
        .iter()
        .map(|input| input.addr)
        .map(|addr| seals.remove(&addr).ok_or_else(|| VerificationError::SealUnknown(addr)))
        .collect::<Result<Vec<_>, _>>()?;
    let verified = match contract.is_known(opid) {
        true => None,
        false => {
            let op = block.operation;
            Some(contract.codex().verify(contract_id, op, contract.memory(), contract.repo())?)
        }
    };
    let id = match block.witness.as_ref() {
        None if closed.is_empty() => None,
        None => return Err(VerificationError::NoWitness(opid)),
        Some(witness) => {
            let id = witness.published.pub_id();
            witness
                .verify_seals_closing(closed.iter(), opid.to_byte_array().into())
                .map_err(|e| VerificationError::SealsNotClosed(id, opid, e))?;
            Some(id)
        }
    };
    block.witness.into_iter().for_each(|witness| contract.apply_witness(opid, witness));
    for (pos, def) in block.defined_seals.iter() {
        let addr = CellAddr::new(opid, *pos);
        if let Some(src) = def.to_src() {
            seals.insert(addr, src);
            continue;
        }
        if let Some(id) = id {
            seals.insert(addr, def.resolve(id));
        }
    }
    match verified {
        Some(verified) if commitment.is_none() => contract.apply_operation(verified),
        Some(_) | None => (),
    }
    if block.defined_seals.iter().next().is_some() {
        contract.apply_seals(opid, block.defined_seals);
    }
    Ok(())
}
''')
