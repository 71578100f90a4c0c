"""Variants with the same behaviour: the procedure cut into larger helpers, types of its own for steps, loops in loops."""
from base import B, SB, EVAL
from ok10 import ALL, rep
from ok11 import HEADC, STEP

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


def match(t):
    return rep('MATCH', (ALL, t))


# --- loops in loops
ok('def-nested-for', MATCH=match('''            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                let mut found = false;
                for (no, cell) in block.operation.destructible_out.iter().enumerate() {
                    if no == usize::from(*pos) {
                        found = cell.auth == seal.auth_token();
                        break;
                    }
                }
                if !found {
                    matching = false;
                    break;
                }
            }'''))
ok('def-nested-any', MATCH=match('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                let auth = seal.auth_token();
                block
                    .operation
                    .destructible_out
                    .iter()
                    .enumerate()
                    .any(|(no, cell)| no == *pos as usize && cell.auth == auth)
            });'''))
ok('def-nested-find', MATCH=match('''            let matching = !block.defined_seals.iter().any(|(pos, seal)| {
                let cell = block.operation.destructible_out.iter().enumerate().find(|(no, _)| *no == *pos as usize);
                match cell {
                    Some((_, cell)) => cell.auth != seal.auth_token(),
                    None => true,
                }
            });'''))
ok('def-good-bad', MATCH=match('''            let good = |pos: &u16, seal: &Seal::Definition| {
                let cell = block.operation.destructible_out.get(*pos as usize);
                cell.is_some_and(|cell| cell.auth == seal.auth_token())
            };
            let bad = block.defined_seals.iter().filter(|(pos, seal)| !good(pos, seal)).count();
            let matching = bad == 0;'''))
ok('def-fold-and', MATCH=match('''            let matching = block.defined_seals.iter().fold(true, |was, (pos, seal)| {
                let cell = block.operation.destructible_out.get(*pos as usize);
                was && cell.is_some_and(|cell| cell.auth == seal.auth_token())
            });'''))
ok('def-vec-contains', MATCH=match('''            let checks = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| {
                    block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
                })
                .collect::<Vec<_>>();
            let matching = !checks.contains(&false);'''))
ok('def-set-tuple', MATCH=match('''            let have = block.operation.destructible_out.iter().enumerate().map(|(no, cell)| (no, cell.auth)).collect::<BTreeSet<_>>();
            let want = block.defined_seals.iter().map(|(pos, seal)| (*pos as usize, seal.auth_token())).collect::<BTreeSet<_>>();
            let matching = want.is_subset(&have);'''))
ok('def-result-fn', MATCH=match('''            fn check<S: RgbSeal>(block: &OperationSeals<S>) -> Result<(), u16> {
                for (pos, seal) in block.defined_seals.iter() {
                    let cell = block.operation.destructible_out.get(*pos as usize).ok_or(*pos)?;
                    if cell.auth != seal.auth_token() {
                        return Err(*pos);
                    }
                }
                Ok(())
            }
            let matching = check(&block).is_ok();'''))
ok('def-option-fn', MATCH=match('''            let first_wrong = block.defined_seals.iter().find_map(|(pos, seal)| {
                let cell = block.operation.destructible_out.get(*pos as usize);
                match cell {
                    Some(cell) if cell.auth == seal.auth_token() => None,
                    _ => Some(*pos),
                }
            });
            let matching = first_wrong.is_none();'''))
# --- inputs
ok('closed-two-phases', CLOSED=HEADC + '''            if let Some(input) = block.operation.destructible_in.iter().find(|input| !seals.contains_key(&input.addr)) {
                return Err(VerificationError::SealUnknown(input.addr));
            }
''' + '''            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }

''')
ok('closed-swap-registry', CLOSED=HEADC + '''            let mut left = core::mem::take(&mut seals);
            for input in &block.operation.destructible_in {
                let seal = left.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }
            seals = left;

''')
ok('closed-method', CLOSED='            let closed_seals = block.close(&mut seals)?;\n\n', ITEMS='''
impl<S: RgbSeal> OperationSeals<S> {
    fn close(&self, seals: &mut BTreeMap<CellAddr, S>) -> Result<Vec<S>, VerificationError<S>> {
        let mut closed = Vec::with_capacity(self.operation.destructible_in.len());
        for input in &self.operation.destructible_in {
            match seals.remove(&input.addr) {
                Some(seal) => closed.push(seal),
                None => return Err(VerificationError::SealUnknown(input.addr)),
            }
        }
        Ok(closed)
    }
}
''')
# --- sources
ok('src-helper-iter', SRC='            let mut seal_sources = block.own_seals(opid).collect::<BTreeSet<_>>();\n\n', ITEMS='''
impl<S: RgbSeal> OperationSeals<S> {
    fn own_seals(&self, opid: Opid) -> impl Iterator<Item = (CellAddr, S)> + '_ {
        self.defined_seals
            .iter()
            .filter_map(move |(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
    }
}
''' if False else '''
fn own_seals<S: RgbSeal>(defs: &SmallOrdMap<u16, S::Definition>, opid: Opid) -> impl Iterator<Item = (CellAddr, S)> + '_ {
    defs.iter()
        .filter_map(move |(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
}
''') if False else None
ok('src-helper-set', SRC='            let mut seal_sources = own_seals::<Seal>(&block.defined_seals, opid);\n\n', ITEMS='''
fn own_seals<S: RgbSeal>(defs: &SmallOrdMap<u16, S::Definition>, opid: Opid) -> BTreeSet<(CellAddr, S)> {
    let mut own = BTreeSet::new();
    for (&pos, def) in defs {
        let Some(seal) = def.to_src() else { continue };
        own.insert((CellAddr::new(opid, pos), seal));
    }
    own
}
''')
ok('src-helper-both', SRC='            let pub_id = block.witness.as_ref().map(|w| w.published.pub_id());\n            let seal_sources = sources::<Seal>(&block.defined_seals, opid, pub_id);\n\n', ITEMS='''
fn sources<S: RgbSeal>(
    defs: &SmallOrdMap<u16, S::Definition>,
    opid: Opid,
    pub_id: Option<<S::Published as single_use_seals::PublishedWitness<S>>::PubId>,
) -> BTreeMap<CellAddr, S> {
    let mut res = BTreeMap::new();
    for (&pos, def) in defs {
        let seal = match (def.to_src(), pub_id) {
            (Some(seal), _) => seal,
            (None, Some(id)) => def.resolve(id),
            (None, None) => continue,
        };
        res.insert(CellAddr::new(opid, pos), seal);
    }
    res
}
''', WIT=B['WIT'][:B['WIT'].index('                //  Each')] + B['WIT'][B['WIT'].index('                self.apply_witness'):])
ok('src-partition', SRC='''            let (own, relative) = block
                .defined_seals
                .iter()
                .partition::<Vec<_>, _>(|(_, seal)| seal.to_src().is_some());
            let mut seal_sources = own
                .into_iter()
                .filter_map(|(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))
                .collect::<BTreeSet<_>>();

''', WIT=rep('WIT', ('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
''', '                let iter = relative.into_iter().map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));\n')))
# --- the whole
PRE0 = '''        let contract_id = self.contract_id();
        let codex_id = self.codex().codex_id();
        let mut seals = BTreeMap::<CellAddr, Seal>::new();
'''
ok('whole-step-struct', EVAL='''        let mut run = Run {
            contract_id: self.contract_id(),
            codex_id: self.codex().codex_id(),
            genesis: true,
            seals: BTreeMap::new(),
        };
        loop {
            let next = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
            let Some(block) = next else { return Ok(()) };
            run.accept(self, block)?;
        }
''', ITEMS='''
struct Run<S: RgbSeal> {
    contract_id: ContractId,
    codex_id: CodexId,
    genesis: bool,
    seals: BTreeMap<CellAddr, S>,
}

impl<S: RgbSeal> Run<S> {
    fn accept<C: ContractApi<S> + ?Sized>(&mut self, contract: &mut C, mut block: OperationSeals<S>) -> Result<(), VerificationError<S>> {
        let genesis = core::mem::take(&mut self.genesis);
        if genesis {
            self.embed(&mut block.operation)?;
        }
        let opid = block.operation.opid();
        Self::check_definitions(opid, &block)?;
        let closed = self.take_inputs(&block.operation)?;
        let OperationSeals { operation, defined_seals, witness } = block;
        let fresh = match contract.is_known(opid) {
            true => None,
            false => Some(contract.codex().verify(self.contract_id, operation, contract.memory(), contract.repo())?),
        };
        let pub_id = Self::check_witness(opid, &closed, witness.as_ref())?;
        for (pos, def) in &defined_seals {
            let seal = def.to_src().or_else(|| Some(def.resolve(pub_id?)));
            if let Some(seal) = seal {
                self.seals.insert(CellAddr::new(opid, *pos), seal);
            }
        }
        if let Some(witness) = witness {
            contract.apply_witness(opid, witness);
        }
        if let (false, Some(fresh)) = (genesis, fresh) {
            contract.apply_operation(fresh);
        }
        if !defined_seals.is_empty() {
            contract.apply_seals(opid, defined_seals);
        }
        Ok(())
    }

    fn embed(&self, genesis: &mut Operation) -> Result<(), VerificationError<S>> {
        if genesis.contract_id.to_byte_array() == self.codex_id.to_byte_array() {
            genesis.contract_id = self.contract_id;
            Ok(())
        } else {
            Err(VerificationError::NoCodexCommitment)
        }
    }

    fn check_definitions(opid: Opid, block: &OperationSeals<S>) -> Result<(), VerificationError<S>> {
        let cells = &block.operation.destructible_out;
        let fits = |(pos, def): (&u16, &S::Definition)| matches!(cells.get(*pos as usize), Some(cell) if cell.auth == def.auth_token());
        if block.defined_seals.iter().all(fits) {
            return Ok(());
        }
        Err(VerificationError::SealsDefinitionMismatch {
            opid,
            reported: block.defined_seals.values().map(RgbSealDef::auth_token).collect(),
            defined: cells.iter().map(|cell| cell.auth).collect(),
            sources: block.defined_seals.iter().map(|(pos, def)| (*pos, def.to_string())).collect(),
        })
    }

    fn take_inputs(&mut self, operation: &Operation) -> Result<Vec<S>, VerificationError<S>> {
        operation
            .destructible_in
            .iter()
            .map(|input| self.seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
            .collect()
    }

    fn check_witness(
        opid: Opid,
        closed: &[S],
        witness: Option<&SealWitness<S>>,
    ) -> Result<Option<<S::PubWitness as single_use_seals::PublishedWitness<S>>::PubId>, VerificationError<S>> {
        let Some(witness) = witness else {
            return if closed.is_empty() { Ok(None) } else { Err(VerificationError::NoWitness(opid)) };
        };
        let id = witness.published.pub_id();
        match witness.verify_seals_closing(closed, opid.to_byte_array().into()) {
            Ok(()) => Ok(Some(id)),
            Err(err) => Err(VerificationError::SealsNotClosed(id, opid, err)),
        }
    }
}
''', USE='use ultrasonic::CodexId;\n')
ok('whole-labelled', EVAL=PRE0 + '''        let mut height = 0u64;
        'stream: loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break 'stream,
                Err(err) => return Err(VerificationError::Stream(Box::new(err))),
            };
            let is_genesis = height == 0;
            height += 1;
''' + B['GEN'] + B['OPID'] + B['SETS'] + B['MATCH'] + B['CLOSED'] + B['KNOWN'] + B['SRC'] + B['WIT'] + '''            seals.extend(seal_sources);
            match operation {
                Some(operation) if !is_genesis => self.apply_operation(operation),
                _ => {}
            }

''' + B['SEALS'].replace('        Ok(())\n    }\n}', '') if False else PRE0 + '''        let mut height = 0u64;
        'stream: loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break 'stream,
                Err(err) => return Err(VerificationError::Stream(Box::new(err))),
            };
            let is_genesis = height == 0;
            height = height.saturating_add(1);
''' + B['GEN'] + B['OPID'] + B['SETS'] + B['MATCH'] + B['CLOSED'] + B['KNOWN'] + B['SRC'] + B['WIT'] + '''            seals.extend(seal_sources);
            match operation {
                Some(operation) if !is_genesis => self.apply_operation(operation),
                _ => {}
            }
            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
        }
        Ok(())
''')
ok('whole-macro', EVAL='''        macro_rules! ensure {
            ($cond:expr, $err:expr) => {
                if !$cond {
                    return Err($err);
                }
            };
        }
''' + PRE0 + '''        let mut is_genesis = true;
        while let Some(mut block) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? {
            if is_genesis {
                ensure!(block.operation.contract_id.to_byte_array() == codex_id.to_byte_array(), VerificationError::NoCodexCommitment);
                block.operation.contract_id = contract_id;
            }
''' + B['OPID'] + B['SETS'] + rep('MATCH', (B['MATCH'][B['MATCH'].index('            if !matching {'):], '''            ensure!(matching, VerificationError::SealsDefinitionMismatch {
                opid,
                reported,
                defined,
                sources: block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
            });

''')) + HEADC + '''            for input in &block.operation.destructible_in {
                let addr = input.addr;
                ensure!(seals.contains_key(&addr), VerificationError::SealUnknown(addr));
                closed_seals.extend(seals.remove(&addr));
            }
''' + B['KNOWN'] + B['SRC'] + '''            ensure!(block.witness.is_some() || closed_seals.is_empty(), VerificationError::NoWitness(opid));
            if let Some(witness) = block.witness {
                let pub_id = witness.published.pub_id();
                let closing = witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into());
                if let Err(err) = closing {
                    return Err(VerificationError::SealsNotClosed(pub_id, opid, err));
                }
                for (pos, seal) in &block.defined_seals {
                    if seal.to_src().is_none() {
                        seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                    }
                }
                self.apply_witness(opid, witness);
            }
''' + B['FIN'] + B['SEALS'] + '        Ok(())\n')
ok('whole-check-apply', EVAL=PRE0 + '''        let mut is_genesis = true;
        while let Some(block) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? {
            let checked = check(self, contract_id, is_genesis.then_some(codex_id), &mut seals, block)?;
            if let Some(witness) = checked.witness {
                self.apply_witness(checked.opid, witness);
            }
            if let Some(operation) = checked.operation {
                self.apply_operation(operation);
            }
            if !checked.defined_seals.is_empty() {
                self.apply_seals(checked.opid, checked.defined_seals);
            }
            is_genesis = false;
        }
        Ok(())
''', ITEMS='''
struct Checked<S: RgbSeal> {
    opid: Opid,
    operation: Option<VerifiedOperation>,
    defined_seals: SmallOrdMap<u16, S::Definition>,
    witness: Option<SealWitness<S>>,
}

fn check<S: RgbSeal, C: ContractApi<S> + ?Sized>(
    contract: &C,
    contract_id: ContractId,
    codex_id: Option<CodexId>,
    seals: &mut BTreeMap<CellAddr, S>,
    OperationSeals { mut operation, defined_seals, witness }: OperationSeals<S>,
) -> Result<Checked<S>, VerificationError<S>> {
    if let Some(codex_id) = codex_id {
        if operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        operation.contract_id = contract_id;
    }
    let opid = operation.opid();

    let mut mismatch = false;
    for (pos, def) in defined_seals.iter() {
        let auth = operation.destructible_out.get(usize::from(*pos)).map(|cell| cell.auth);
        mismatch |= auth != Some(def.auth_token());
    }
    if mismatch {
        let defined = operation.destructible_out.iter().map(|cell| cell.auth).collect();
        let reported = defined_seals.values().map(|def| def.auth_token()).collect();
        let sources = defined_seals.iter().map(|(pos, def)| (*pos, def.to_string())).collect();
        return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
    }

    let mut closed = Vec::new();
    for addr in operation.destructible_in.iter().map(|input| input.addr) {
        closed.push(seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?);
    }

    let mut verified = None;
    if !contract.is_known(opid) {
        let op = contract.codex().verify(contract_id, operation, contract.memory(), contract.repo())?;
        verified = Some(op).filter(|_| codex_id.is_none());
    }

    let mut witness_id = None;
    match &witness {
        Some(witness) => {
            let id = witness.published.pub_id();
            witness
                .verify_seals_closing(&closed, opid.to_byte_array().into())
                .map_err(|e| VerificationError::SealsNotClosed(id, opid, e))?;
            witness_id = Some(id);
        }
        None if !closed.is_empty() => return Err(VerificationError::NoWitness(opid)),
        None => (),
    }
    for (pos, def) in &defined_seals {
        if let Some(seal) = def.to_src().or_else(|| witness_id.map(|id| def.resolve(id))) {
            seals.insert(CellAddr::new(opid, *pos), seal);
        }
    }
    Ok(Checked { opid, operation: verified, defined_seals, witness })
}
''', USE='use ultrasonic::CodexId;\n')
ok('whole-closures', EVAL=PRE0 + '''        let mut is_genesis = true;
        let stream_error = |e: Box<dyn Error>| VerificationError::<Seal>::Stream(e);
        loop {
            let mut block = match reader.read_operation() {
                Err(e) => return Err(stream_error(Box::new(e))),
                Ok(None) => return Ok(()),
                Ok(Some(block)) => block,
            };
''' + B['GEN'] + B['OPID'] + '''            let auth_of = |pos: u16| block.operation.destructible_out.get(pos as usize).map(|cell| cell.auth);
            let mismatch = |block: &OperationSeals<Seal>| VerificationError::SealsDefinitionMismatch {
                opid,
                reported: block.defined_seals.values().map(|seal| seal.auth_token()).collect(),
                defined: block.operation.destructible_out.iter().map(|cell| cell.auth).collect(),
                sources: block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
            };
            for (pos, seal) in &block.defined_seals {
                if auth_of(*pos) != Some(seal.auth_token()) {
                    return Err(mismatch(&block));
                }
            }
''' + B['CLOSED'] + B['KNOWN'] + '''            let witness_id = match &block.witness {
                Some(witness) => {
                    let witness_id = witness.published.pub_id();
                    let not_closed = |e| VerificationError::SealsNotClosed(witness_id, opid, e);
                    witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into()).map_err(not_closed)?;
                    Some(witness_id)
                }
                None if closed_seals.is_empty() => None,
                None => return Err(VerificationError::NoWitness(opid)),
            };
            let address = |pos: &u16| CellAddr::new(opid, *pos);
            for (pos, seal) in &block.defined_seals {
                match (seal.to_src(), witness_id) {
                    (Some(src), _) => seals.insert(address(pos), src),
                    (None, Some(id)) => seals.insert(address(pos), seal.resolve(id)),
                    (None, None) => None,
                };
            }
            block.witness.map(|witness| self.apply_witness(opid, witness));
            if let Some(operation) = operation.filter(|_| !is_genesis) {
                self.apply_operation(operation);
            }
            is_genesis = false;
            if block.defined_seals.is_empty() {
                continue;
            }
            self.apply_seals(opid, block.defined_seals);
        }
''')
ok('whole-genesis-fn', EVAL=PRE0 + '''        let Some(mut genesis) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? else {
            return Ok(());
        };
        if genesis.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        genesis.operation.contract_id = contract_id;
        handle(self, contract_id, &mut seals, genesis, true)?;
        while let Some(block) = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))? {
            handle(self, contract_id, &mut seals, block, false)?;
        }
        Ok(())
''', ITEMS='''
fn handle<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>(
    this: &mut C,
    contract_id: ContractId,
    seals: &mut BTreeMap<CellAddr, Seal>,
    block: OperationSeals<Seal>,
    is_genesis: bool,
) -> Result<(), VerificationError<Seal>> {
''' + (B['OPID'] + B['SETS'] + B['MATCH'] + B['CLOSED'] + B['KNOWN'] + B['SRC'] + B['WIT']).replace('self.', 'this.').replace('= self\n', '= this\n') + '''    seals.extend(seal_sources);
    if let (Some(operation), false) = (operation, is_genesis) {
        this.apply_operation(operation);
    }
    if !block.defined_seals.is_empty() {
        this.apply_seals(opid, block.defined_seals);
    }
    Ok(())
}
''')
ok('whole-newtype-id', OPID='            let opid = OpId(block.operation.opid()).0;\n', ITEMS='\nstruct OpId(Opid);\n')
ok('whole-early-moves', KNOWN='''            let OperationSeals { operation: raw, defined_seals, witness } = block;
            let known = self.is_known(opid);
            let operation = if known {
                None
            } else {
                Some(self.codex().verify(contract_id, raw, self.memory(), self.repo())?)
            };

''', SRC=B['SRC'].replace('block\n                .defined_seals', 'defined_seals'), WIT=B['WIT'].replace('block.witness', 'witness').replace('block\n                    .defined_seals', 'defined_seals'), SEALS=B['SEALS'].replace('block.defined_seals', 'defined_seals'))
VARIANTS = {k: v for k, v in VARIANTS.items() if v}
