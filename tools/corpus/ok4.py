"""More variants of the source with the same behaviour."""
from base import B, SB, EVAL
from ok2 import BODY

VARIANTS = {}
READ = '''        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
'''
assert READ in EVAL


def ok(n, **kw):
    VARIANTS[n] = kw


ok('stream-iter', EVAL=EVAL.replace(READ, '''        for block in Blocks(reader) {
            let mut block: OperationSeals<Seal> = block?;
'''), ITEMS='''
struct Blocks<R: ReadOperation>(R);
impl<R: ReadOperation> Iterator for Blocks<R> {
    type Item = Result<OperationSeals<R::Seal>, VerificationError<R::Seal>>;
    fn next(&mut self) -> Option<Self::Item> {
        match self.0.read_operation() {
            Ok(block) => block.map(Ok),
            Err(e) => Some(Err(VerificationError::Stream(Box::new(e)))),
        }
    }
}
''')
ok('stream-from-fn', EVAL=EVAL.replace(READ, '''        let blocks = core::iter::from_fn(|| match reader.read_operation() {
            Ok(block) => block.map(Ok),
            Err(e) => Some(Err(VerificationError::<Seal>::Stream(Box::new(e)))),
        });
        for block in blocks {
            let mut block = block?;
'''))
ok('stream-method', EVAL=EVAL.replace(READ, '''        while let Some(mut block) = next_block(&mut reader)? {
'''), ITEMS='''
fn next_block<R: ReadOperation>(reader: &mut R) -> Result<Option<OperationSeals<R::Seal>>, VerificationError<R::Seal>> {
    let block = reader
        .read_operation()
        .map_err(|err| VerificationError::Stream(Box::new(err)))?;
    Ok(block)
}
''')
ok('genesis-option', EVAL=EVAL.replace('let mut is_genesis = true;', 'let mut commitment = Some(codex_id);'), GEN='''            let is_genesis = commitment.is_some();
            if let Some(codex_id) = commitment.take() {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN='''            seals.extend(seal_sources);
            if let (false, Some(operation)) = (is_genesis, operation) {
                self.apply_operation(operation);
            }

''')
ok('genesis-replace-flag', GEN=B['GEN'].replace('            if is_genesis {', '            let first = core::mem::replace(&mut is_genesis, false);\n            if first {'), FIN='''            seals.extend(seal_sources);
            if let Some(operation) = operation {
                if !first {
                    self.apply_operation(operation);
                }
            }

''')
ok('genesis-count', EVAL=EVAL.replace('let mut is_genesis = true;', 'let mut processed = 0usize;'), GEN=B['GEN'].replace('if is_genesis', 'if processed == 0'), FIN='''            seals.extend(seal_sources);
            if processed > 0 {
                if let Some(operation) = operation {
                    self.apply_operation(operation);
                }
            }
            processed = processed.saturating_add(1);

''')
ok('genesis-last-opid', EVAL=EVAL.replace('let mut is_genesis = true;', 'let mut prev: Option<Opid> = None;'), GEN=B['GEN'].replace('if is_genesis', 'if prev.is_none()'), FIN='''            seals.extend(seal_sources);
            if prev.replace(opid).is_some() {
                if let Some(operation) = operation {
                    self.apply_operation(operation);
                }
            }

''')
ok('try-closure', MATCH=B['MATCH'], WIT='''            let mut close = || -> Result<_, VerificationError<Seal>> {
                let Some(witness) = block.witness.as_ref() else {
                    return if closed_seals.is_empty() { Ok(None) } else { Err(VerificationError::NoWitness(opid)) };
                };
                let pub_id = witness.published.pub_id();
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
                Ok(Some(pub_id))
            };
            let pub_id = close()?;
            seal_sources.extend(pub_id.iter().flat_map(|id| {
                block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(*id)))
            }));
            if let Some(witness) = block.witness {
                self.apply_witness(opid, witness);
            }

''')
ok('hash-registry', EVAL=EVAL.replace('let mut seals = BTreeMap::<CellAddr, Seal>::new();', 'let mut seals = BTreeMap::<Opid, BTreeMap<u16, Seal>>::new();') if False else EVAL)
ok('impl-where', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', '''impl<S, T> ContractVerify<S> for T
where
    S: RgbSeal,
    T: ContractApi<S> + ?Sized,
{
}''')])
ok('impl-in-blanket', SUB=[('''    fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self, mut reader: R) -> Result<(), VerificationError<Seal>> {
''' + EVAL + '''    }
''', '''    fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self, reader: R) -> Result<(), VerificationError<Seal>>;
'''), ('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', '''impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {
    fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self, mut reader: R) -> Result<(), VerificationError<Seal>> {
''' + EVAL + '''    }
}''')])
ok('display-manual', SUB=[('#[derive(Display, Error, From)]\n#[display(doc_comments)]\npub enum', '#[derive(Error, From)]\npub enum'), ('    #[from]\n    #[display(inner)]\n', '    #[from]\n'), ('''// We need manual implementation since''', '''impl<Seal: RgbSeal> core::fmt::Display for VerificationError<Seal> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        match self {
            Self::Stream(e) => write!(f, "error reading the consignment stream.\\n\\nDetails: {e}"),
            Self::NoCodexCommitment => f.write_str("genesis does not commit to the codex id; a wrong contract genesis is used."),
            Self::NoWitness(opid) => write!(f, "no witness known for the operation {opid}."),
            Self::SealsNotClosed(id, opid, e) => write!(
                f,
                "single-use seals are not closed properly with witness {id} for operation {opid}.\\n\\nDetails: {e}"
            ),
            Self::SealUnknown(addr) => write!(f, "unknown seal definition for cell address {addr}."),
            Self::SealsDefinitionMismatch { opid, reported, defined, sources } => write!(
                f,
                "seals, reported to be defined by the operation {opid}, do match the assignments in the operation.\\n\\nActual \\
                 operation seals from the assignments: {defined:#?}\\n\\nReported seals: {reported:#?}\\n\\nSources for the \\
                 reported seals: {sources:#?}"
            ),
            Self::Vm(e) => write!(f, "{e}"),
        }
    }
}

// We need manual implementation since''')])
ok('from-manual', SUB=[('#[derive(Display, Error, From)]', '#[derive(Display, Error)]'), ('    #[from]\n    #[display(inner)]\n', '    #[display(inner)]\n'), ('''// We need manual implementation since''', '''impl<Seal: RgbSeal> From<CallError> for VerificationError<Seal> {
    fn from(err: CallError) -> Self { VerificationError::Vm(err) }
}

// We need manual implementation since''')])
ok('error-ctor', ITEMS='''
impl<Seal: RgbSeal> VerificationError<Seal> {
    fn stream(e: impl Error + 'static) -> Self { Self::Stream(Box::new(e)) }
    fn mismatch(opid: Opid, block: &OperationSeals<Seal>) -> Self {
        Self::SealsDefinitionMismatch {
            opid,
            reported: block.reported(),
            defined: block.defined(),
            sources: block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
        }
    }
}

impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn defined(&self) -> BTreeSet<AuthToken> { self.operation.destructible_out.iter().map(|c| c.auth).collect() }
    fn reported(&self) -> BTreeSet<AuthToken> { self.defined_seals.values().map(|s| s.auth_token()).collect() }
    fn is_matching(&self) -> bool {
        let out = &self.operation.destructible_out;
        for (pos, seal) in self.defined_seals.iter() {
            match out.get(*pos as usize) {
                Some(cell) if cell.auth == seal.auth_token() => {}
                _ => return false,
            }
        }
        true
    }
}
''', HEAD='''        while let Some(mut block) = reader.read_operation().map_err(VerificationError::stream)? {
''', SETS='', MATCH='''            if !block.is_matching() {
                return Err(VerificationError::mismatch(opid, &block));
            }

''')
ok('strict-manual', SUB=[('#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]\n#[strict_type(lib = LIB_NAME_RGB)]\n#[cfg_attr', '#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]\n#[strict_type(lib = LIB_NAME_RGB)]\n#[allow(clippy::all)]\n#[cfg_attr')])
ok('vec-sources', SRC='''            let mut seal_sources = Vec::with_capacity(block.defined_seals.len());
            for (pos, seal) in block.defined_seals.iter() {
                if let Some(src) = seal.to_src() {
                    seal_sources.push((CellAddr::new(opid, *pos), src));
                }
            }

''')
ok('wit-let-else-loop', SRC='', WIT='''            let pub_id = block.witness.as_ref().map(|w| w.published.pub_id());
            if let Some(witness) = &block.witness {
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }
            let mut fresh = Vec::new();
            for (pos, def) in &block.defined_seals {
                let seal = match def.to_src() {
                    Some(seal) => seal,
                    None => {
                        let Some(pub_id) = pub_id else { continue };
                        def.resolve(pub_id)
                    }
                };
                fresh.push((CellAddr::new(opid, *pos), seal));
            }
            if let Some(witness) = block.witness {
                self.apply_witness(opid, witness);
            }

''', FIN=B['FIN'].replace('seal_sources', 'fresh'))
ok('closed-option-collect', CLOSED='''            let closed_seals: Vec<Seal> = {
                let mut list = Vec::new();
                let mut iter = block.operation.destructible_in.iter().map(|input| input.addr);
                while let Some(addr) = iter.next() {
                    list.push(match seals.remove(&addr) {
                        Some(seal) => seal,
                        None => return Err(VerificationError::SealUnknown(addr)),
                    });
                }
                list
            };

''')
ok('closed-and-then', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.remove(&input.addr).ok_or_else(|| input.addr))
                .collect::<Result<Vec<_>, CellAddr>>()
                .map_err(VerificationError::SealUnknown)?;

''')
ok('closed-remove-entry2', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                use alloc::collections::btree_map::Entry;
                match seals.entry(input.addr) {
                    Entry::Occupied(entry) => closed_seals.push(entry.remove()),
                    Entry::Vacant(_) => return Err(VerificationError::SealUnknown(input.addr)),
                }
            }

''')
ok('match-deny', MATCH='''            for (&pos, seal) in &block.defined_seals {
                let Some(cell) = block.operation.destructible_out.get(pos as usize) else {
                    let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                    return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
                };
                let token = seal.auth_token();
                if token != cell.auth {
                    let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                    return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
                }
            }

''')
ok('match-not-any', MATCH=B['MATCH'].replace('let matching = block.defined_seals.iter().all(', 'let matching = !block.defined_seals.iter().any(').replace('.is_some_and(|cell| cell.auth == seal.auth_token())', '.is_none_or(|cell| cell.auth != seal.auth_token())'))
ok('match-filter-map-count', MATCH='''            let confirmed = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| {
                    let cell = block.operation.destructible_out.get(*pos as usize)?;
                    (cell.auth == seal.auth_token()).then_some(())
                })
                .count();
            if confirmed != block.defined_seals.len() {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
ok('match-result-collect', MATCH='''            let check: Result<(), ()> = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) if seal.auth_token() == cell.auth => Ok(()),
                    _ => Err(()),
                })
                .collect();
            check.map_err(|()| {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources }
            })?;

''')
ok('tokens-iter-zip', SETS='''            let mut defined = BTreeSet::new();
            for cell in &block.operation.destructible_out {
                defined.insert(cell.auth);
            }
            let mut reported = BTreeSet::new();
            reported.extend(block.defined_seals.values().map(RgbSealDef::auth_token));
''')
ok('sources-fmt', MATCH=B['MATCH'].replace('(*pos, seal.to_string())', '(*pos, format!("{seal}"))'))
ok('apply-order-let', FIN='''            for (addr, seal) in seal_sources.into_iter() {
                let _ = seals.insert(addr, seal);
            }
            let apply = !is_genesis;
            is_genesis = false;
            if let Some(operation) = operation {
                if apply {
                    self.apply_operation(operation);
                }
            }

''')
ok('codex-late', EVAL=EVAL.replace('        let codex_id = self.codex().codex_id();\n', ''), GEN=B['GEN'].replace('codex_id.to_byte_array()', 'self.codex().codex_id().to_byte_array()'))
ok('memo-codex', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                let codex = self.codex();
                let (memory, repo) = (self.memory(), self.repo());
                let verified = codex.verify(contract_id, block.operation, memory, repo)?;
                Some(verified)
            };

''')
ok('stage-struct', EVAL='''        let mut state = State::<Seal> {
            contract_id: self.contract_id(),
            codex_id: self.codex().codex_id(),
            is_genesis: true,
            seals: BTreeMap::new(),
        };
        while let Some(block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
            state.advance(self, block)?;
        }
        Ok(())
''', ITEMS='''
struct State<Seal: RgbSeal> {
    contract_id: ContractId,
    codex_id: ultrasonic::CodexId,
    is_genesis: bool,
    seals: BTreeMap<CellAddr, Seal>,
}

impl<Seal: RgbSeal> State<Seal> {
    fn advance<C: ContractApi<Seal> + ?Sized>(
        &mut self,
        api: &mut C,
        block: OperationSeals<Seal>,
    ) -> Result<(), VerificationError<Seal>> {
        let OperationSeals { mut operation, defined_seals, witness } = block;
        self.bind(&mut operation)?;
        let opid = operation.opid();
        self.check_definitions(opid, &operation, &defined_seals)?;
        let spent = self.spend(&operation)?;
        let verified = match api.is_known(opid) {
            true => None,
            false => Some(api.codex().verify(self.contract_id, operation, api.memory(), api.repo())?),
        };
        let witness_id = match &witness {
            None if spent.is_empty() => None,
            None => return Err(VerificationError::NoWitness(opid)),
            Some(witness) => {
                let id = witness.published.pub_id();
                witness
                    .verify_seals_closing(&spent, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(id, opid, e))?;
                Some(id)
            }
        };
        self.define(opid, &defined_seals, witness_id);
        if let Some(witness) = witness {
            api.apply_witness(opid, witness);
        }
        if !core::mem::take(&mut self.is_genesis) {
            if let Some(verified) = verified {
                api.apply_operation(verified);
            }
        }
        if !defined_seals.is_empty() {
            api.apply_seals(opid, defined_seals);
        }
        Ok(())
    }

    fn bind(&self, operation: &mut Operation) -> Result<(), VerificationError<Seal>> {
        if !self.is_genesis {
            return Ok(());
        }
        if operation.contract_id.to_byte_array() != self.codex_id.to_byte_array() {
            return Err(VerificationError::NoCodexCommitment);
        }
        operation.contract_id = self.contract_id;
        Ok(())
    }

    fn check_definitions(
        &self,
        opid: Opid,
        operation: &Operation,
        definitions: &SmallOrdMap<u16, Seal::Definition>,
    ) -> Result<(), VerificationError<Seal>> {
        let cell_token = |pos: u16| operation.destructible_out.get(pos as usize).map(|cell| cell.auth);
        if definitions.iter().all(|(pos, def)| cell_token(*pos) == Some(def.auth_token())) {
            return Ok(());
        }
        Err(VerificationError::SealsDefinitionMismatch {
            opid,
            reported: definitions.values().map(|def| def.auth_token()).collect(),
            defined: operation.destructible_out.iter().map(|cell| cell.auth).collect(),
            sources: definitions.iter().map(|(pos, def)| (*pos, def.to_string())).collect(),
        })
    }

    fn spend(&mut self, operation: &Operation) -> Result<Vec<Seal>, VerificationError<Seal>> {
        let mut spent = vec![];
        for addr in operation.destructible_in.iter().map(|input| &input.addr) {
            spent.push(self.seals.remove(addr).ok_or(VerificationError::SealUnknown(*addr))?);
        }
        Ok(spent)
    }

    fn define(
        &mut self,
        opid: Opid,
        definitions: &SmallOrdMap<u16, Seal::Definition>,
        witness_id: Option<<Seal::PubWitness as PublishedWitness<Seal>>::PubId>,
    ) {
        for (pos, def) in definitions {
            let seal = def.to_src().or(witness_id.map(|id| def.resolve(id)));
            if let Some(seal) = seal {
                self.seals.insert(CellAddr::new(opid, *pos), seal);
            }
        }
    }
}
''')
ok('seq-inline', EVAL='''        let (contract_id, codex_id) = (self.contract_id(), self.codex().codex_id());
        let mut spendable: BTreeMap<CellAddr, Seal> = BTreeMap::default();
        let mut no = 0u64;
        loop {
            let mut item = match reader.read_operation() {
                Err(e) => break Err(VerificationError::Stream(Box::new(e))),
                Ok(None) => break Ok(()),
                Ok(Some(item)) => item,
            };
            let first = no == 0;
            no = no.wrapping_add(1).max(1);
            if first {
                if codex_id.to_byte_array() != item.operation.contract_id.to_byte_array() {
                    break Err(VerificationError::NoCodexCommitment);
                }
                item.operation.contract_id = contract_id;
            }
            let opid = item.operation.opid();
            let cells = &item.operation.destructible_out;
            if item.defined_seals.iter().any(|(pos, seal)| match cells.get(*pos as usize) {
                None => true,
                Some(cell) => cell.auth != seal.auth_token(),
            }) {
                break Err(VerificationError::SealsDefinitionMismatch {
                    opid,
                    reported: item.defined_seals.values().map(|seal| seal.auth_token()).collect(),
                    defined: cells.iter().map(|cell| cell.auth).collect(),
                    sources: item.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
                });
            }
            let mut spent = Vec::new();
            for input in &item.operation.destructible_in {
                match spendable.remove(&input.addr) {
                    None => return Err(VerificationError::SealUnknown(input.addr)),
                    Some(seal) => spent.push(seal),
                }
            }
            let mut fresh = None;
            if !self.is_known(opid) {
                match self.codex().verify(contract_id, item.operation, self.memory(), self.repo()) {
                    Ok(op) => fresh = Some(op),
                    Err(e) => return Err(e.into()),
                }
            }
            let mut witness_id = None;
            match item.witness {
                Some(witness) => {
                    let id = witness.published.pub_id();
                    if let Err(e) = witness.verify_seals_closing(&spent, opid.to_byte_array().into()) {
                        return Err(VerificationError::SealsNotClosed(id, opid, e));
                    }
                    witness_id = Some(id);
                    self.apply_witness(opid, witness);
                }
                None => {
                    if !spent.is_empty() {
                        return Err(VerificationError::NoWitness(opid));
                    }
                }
            }
            for (pos, seal) in &item.defined_seals {
                if let Some(seal) = seal.to_src().or_else(|| Some(seal.resolve(witness_id?))) {
                    spendable.insert(CellAddr::new(opid, *pos), seal);
                }
            }
            if let (Some(op), false) = (fresh, first) {
                self.apply_operation(op);
            }
            if item.defined_seals.is_empty() {
                continue;
            }
            self.apply_seals(opid, item.defined_seals);
        }
''')
ok('swap-order', KNOWN='', CLOSED=B['KNOWN'].replace('block.operation, self', 'block.operation.clone(), self') + B['CLOSED'])
ok('swap-order-defs', MATCH='', CLOSED=B['CLOSED'] + B['MATCH'])
ok('src-before-known', KNOWN='', SRC=B['SRC'] + B['KNOWN'])
ok('seals-before-op', OPID=B['OPID'] + '            let has_definitions = !block.defined_seals.is_empty();\n            let has_inputs = !block.operation.destructible_in.is_empty();\n', SEALS=B['SEALS'].replace('!block.defined_seals.is_empty()', 'has_definitions'), WIT=B['WIT'].replace('!closed_seals.is_empty()', 'has_inputs'))
ok('wit-none-early', CLOSED=B['CLOSED'], WIT='''            let witness = match block.witness {
                None => {
                    if closed_seals.iter().next().is_some() {
                        return Err(VerificationError::NoWitness(opid));
                    }
                    None
                }
                Some(witness) => {
                    let verified = witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into());
                    let pub_id = witness.published.pub_id();
                    verified.map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
                    let resolved = block.defined_seals.iter().filter_map(|(pos, seal)| match seal.to_src() {
                        Some(_) => None,
                        None => Some((CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                    });
                    seal_sources.extend(resolved);
                    Some(witness)
                }
            };
            if let Some(witness) = witness {
                self.apply_witness(opid, witness);
            }

''')
ok('generic-helper', CLOSED='''            let closed_seals = take_all(&mut seals, block.operation.destructible_in.iter().map(|i| i.addr))
                .map_err(VerificationError::SealUnknown)?;

''', ITEMS='''
fn take_all<K: Ord + Copy, V>(map: &mut BTreeMap<K, V>, keys: impl IntoIterator<Item = K>) -> Result<Vec<V>, K> {
    let mut out = Vec::new();
    for key in keys {
        match map.remove(&key) {
            Some(v) => out.push(v),
            None => return Err(key),
        }
    }
    Ok(out)
}
''')
ok('dyn-helper', MATCH='''            let cell_auth: &dyn Fn(u16) -> Option<AuthToken> =
                &|pos| block.operation.destructible_out.get(pos as usize).map(|cell| cell.auth);
            let matching = block.defined_seals.iter().all(|(pos, seal)| cell_auth(*pos) == Some(seal.auth_token()));
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
