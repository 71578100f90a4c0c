"""Still more variants of the source with the same behaviour: types of their own, smart pointers, sorted and partial collections."""
from base import B, SB, EVAL

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


def rep(k, *subs):
    t = B.get(k) or SB[k]
    for a, b in subs:
        assert t.count(a) >= 1, (k, a, t.count(a))
        t = t.replace(a, b)
    return t


ALL = '''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });'''

# --- registry types
ok('reg-newtype-deref', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal>(BTreeMap::new())')), ITEMS='''
struct Registry<S>(BTreeMap<CellAddr, S>);

impl<S> core::ops::Deref for Registry<S> {
    type Target = BTreeMap<CellAddr, S>;
    fn deref(&self) -> &Self::Target { &self.0 }
}
impl<S> core::ops::DerefMut for Registry<S> {
    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
}
''')
ok('reg-struct', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal>::default()')), CLOSED=rep('CLOSED', ('''seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;''', '''seals.close(input.addr)?;''')),
   FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.define_all(seal_sources);')), ITEMS='''
/// Seals which can be closed
struct Registry<S: RgbSeal> {
    open: BTreeMap<CellAddr, S>,
}

impl<S: RgbSeal> Default for Registry<S> {
    fn default() -> Self { Self { open: BTreeMap::new() } }
}

impl<S: RgbSeal> Registry<S> {
    fn close(&mut self, addr: CellAddr) -> Result<S, VerificationError<S>> {
        match self.open.remove(&addr) {
            Some(seal) => Ok(seal),
            None => Err(VerificationError::SealUnknown(addr)),
        }
    }

    fn define_all(&mut self, iter: impl IntoIterator<Item = (CellAddr, S)>) {
        for (addr, seal) in iter {
            self.open.insert(addr, seal);
        }
    }
}
''')
ok('reg-extend-trait', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal> { open: BTreeMap::new() }')), CLOSED=rep('CLOSED', ('''seals
                    .remove(''', '''seals
                    .open
                    .remove(''')), ITEMS='''
struct Registry<S> {
    open: BTreeMap<CellAddr, S>,
}

impl<S> Extend<(CellAddr, S)> for Registry<S> {
    fn extend<T: IntoIterator<Item = (CellAddr, S)>>(&mut self, iter: T) { self.open.extend(iter) }
}
''')
ok('reg-add-assign', FIN=rep('FIN', ('seals.extend(seal_sources);', '''let mut registry = Registry(&mut seals);
            registry += seal_sources;''')), ITEMS='''
struct Registry<'a, S>(&'a mut BTreeMap<CellAddr, S>);

impl<S, I: IntoIterator<Item = (CellAddr, S)>> core::ops::AddAssign<I> for Registry<'_, S> {
    fn add_assign(&mut self, other: I) {
        for (addr, seal) in other {
            self.0.insert(addr, seal);
        }
    }
}
''')
ok('reg-mut-ref', PRE=B['PRE'] + '        let seals = &mut seals;\n')
ok('reg-hashmap-free', CLOSED=rep('CLOSED', ('''let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);''', '''if !seals.contains_key(&input.addr) {
                    return Err(VerificationError::SealUnknown(input.addr));
                }
                closed_seals.extend(seals.remove(&input.addr));''')))
ok('reg-unwrap', CLOSED=rep('CLOSED', ('''let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);''', '''if !seals.contains_key(&input.addr) {
                    return Err(VerificationError::SealUnknown(input.addr));
                }
                closed_seals.push(seals.remove(&input.addr).expect("checked above"));''')))
ok('reg-get-clone', CLOSED=rep('CLOSED', ('''let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);''', '''let seal = seals.get(&input.addr).cloned().ok_or(VerificationError::SealUnknown(input.addr))?;
                seals.remove(&input.addr);
                closed_seals.push(seal);''')))
ok('reg-box', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Box::new(BTreeMap::<CellAddr, Seal>::new())')))
ok('state-struct', PRE='''        let mut state = State { contract_id: self.contract_id(), codex_id: self.codex().codex_id(), is_genesis: true };
        let contract_id = state.contract_id;
        let mut seals = BTreeMap::<CellAddr, Seal>::new();

''', GEN='''            if state.is_genesis {
                if block.operation.contract_id.to_byte_array() != state.codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = state.contract_id;
            }
''', FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false', 'if state.is_genesis {\n                state.is_genesis = false')), ITEMS='''
struct State {
    contract_id: ContractId,
    codex_id: ultrasonic::CodexId,
    is_genesis: bool,
}
''')
ok('state-enum', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut stage = Stage::Genesis(codex_id);')), GEN='''            if let Stage::Genesis(codex_id) = &stage {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false', 'if matches!(stage, Stage::Genesis(_)) {\n                stage = Stage::Operations')), ITEMS='''
enum Stage {
    Genesis(ultrasonic::CodexId),
    Operations,
}
''')
ok('state-option', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut commitment = Some(codex_id.to_byte_array());')), GEN='''            if let Some(commitment) = commitment.as_ref() {
                if &block.operation.contract_id.to_byte_array() != commitment {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {\n                self.apply_operation(operation);\n            }', 'if commitment.take().is_none() {\n                if let Some(operation) = operation {\n                    self.apply_operation(operation);\n                }\n            }')))
ok('state-counter', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut processed = 0u64;')), GEN=rep('GEN', ('if is_genesis {', 'if processed == 0 {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false', 'let first = processed == 0;\n            processed = processed.saturating_add(1);\n            if first {')).replace('if first {\n            } else if let', 'if first {\n            } else if let'))
ok('state-refcell', PRE=rep('PRE', ('let mut is_genesis = true;', 'let is_genesis = core::cell::Cell::new(true);')), GEN=rep('GEN', ('if is_genesis {', 'if is_genesis.get() {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false', 'if is_genesis.get() {\n                is_genesis.set(false)')))
# --- results and errors
ok('err-own-type', MATCH=rep('MATCH', ('return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });', 'return Err(Mismatch { opid, reported, defined, sources }.into());')), ITEMS='''
struct Mismatch {
    opid: Opid,
    reported: BTreeSet<AuthToken>,
    defined: BTreeSet<AuthToken>,
    sources: BTreeMap<u16, String>,
}

impl<Seal: RgbSeal> From<Mismatch> for VerificationError<Seal> {
    fn from(m: Mismatch) -> Self {
        let Mismatch { opid, reported, defined, sources } = m;
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources }
    }
}
''')
ok('err-try-from', CLOSED=rep('CLOSED', ('''seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;''', '''seals.remove(&input.addr).ok_or(Unknown(input.addr))?;''')), ITEMS='''
struct Unknown(CellAddr);

impl<Seal: RgbSeal> From<Unknown> for VerificationError<Seal> {
    fn from(Unknown(addr): Unknown) -> Self { Self::SealUnknown(addr) }
}
''')
ok('err-ctor', MATCH=rep('MATCH', ('return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });', 'return Err(VerificationError::mismatch(opid, reported, defined, sources));')), ITEMS='''
impl<Seal: RgbSeal> VerificationError<Seal> {
    fn mismatch(
        opid: Opid,
        reported: BTreeSet<AuthToken>,
        defined: BTreeSet<AuthToken>,
        sources: BTreeMap<u16, String>,
    ) -> Self {
        Self::SealsDefinitionMismatch { opid, reported, defined, sources }
    }
}
''')
ok('err-closure', WIT=rep('WIT', ('.map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;', '.map_err(not_closed)?;'), ('                witness\n                    .verify', '                let not_closed = |e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e);\n                witness\n                    .verify')))
ok('err-result-option', KNOWN='''            let verified: Result<Option<VerifiedOperation>, CallError> = match self.is_known(opid) {
                true => Ok(None),
                false => self.codex().verify(contract_id, block.operation, self.memory(), self.repo()).map(Some),
            };
            let operation = verified?;

''')
# --- definitions
ok('def-sorted-pairs', MATCH=rep('MATCH', (ALL, '''            let mut pairs: Vec<(usize, AuthToken)> = Vec::new();
            for (pos, seal) in &block.defined_seals {
                pairs.push((usize::from(*pos), seal.auth_token()));
            }
            let matching = pairs.iter().all(|(pos, auth)| {
                let cell = block.operation.destructible_out.get(*pos);
                matches!(cell, Some(cell) if cell.auth == *auth)
            });''')))
ok('def-map-tokens', MATCH=rep('MATCH', (ALL, '''            let tokens: BTreeMap<u16, AuthToken> = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.auth_token())).collect();
            let matching = tokens
                .iter()
                .all(|(pos, auth)| block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == *auth));''')))
ok('def-result', MATCH=rep('MATCH', (ALL, '''            let matching = block
                .defined_seals
                .iter()
                .try_for_each(|(pos, seal)| {
                    let cell = block.operation.destructible_out.get(*pos as usize).ok_or(())?;
                    if cell.auth == seal.auth_token() { Ok(()) } else { Err(()) }
                })
                .is_ok();''')))
ok('def-option-try', MATCH=rep('MATCH', (ALL, '''            let matching = block
                .defined_seals
                .iter()
                .try_fold((), |(), (pos, seal)| {
                    let cell = block.operation.destructible_out.get(*pos as usize)?;
                    (cell.auth == seal.auth_token()).then_some(())
                })
                .is_some();''')))
ok('def-method', MATCH=rep('MATCH', (ALL, '''            let matching = block.definitions_match();''')), ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    /// Whether each reported seal is the one to which its cell commits.
    fn definitions_match(&self) -> bool {
        let Self { operation, defined_seals, .. } = self;
        defined_seals
            .iter()
            .all(|(pos, seal)| match operation.destructible_out.get(*pos as usize) {
                None => false,
                Some(cell) => cell.auth == seal.auth_token(),
            })
    }
}
''')
ok('def-cmp-eq', MATCH=rep('MATCH', ('cell.auth == seal.auth_token()', 'cell.auth.eq(&seal.auth_token())')))
ok('def-bytes', MATCH=rep('MATCH', ('cell.auth == seal.auth_token()', 'cell.auth.to_byte_array() == seal.auth_token().to_byte_array()')))
ok('def-skip-empty', MATCH=rep('MATCH', ('if !matching {', 'if !block.defined_seals.is_empty() && !matching {')))
ok('def-len-first', MATCH=rep('MATCH', ('if !matching {', 'let too_many = block.defined_seals.len() > block.operation.destructible_out.len();\n            if too_many || !matching {')))
ok('def-last-key', MATCH=rep('MATCH', (ALL, '''            let cells = &block.operation.destructible_out;
            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                let pos = u32::from(*pos);
                (pos as usize) < cells.len() && cells[pos as usize].auth == seal.auth_token()
            });''')))
ok('def-nested-if', MATCH=rep('MATCH', (ALL, '''            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                if let Some(ref cell) = block.operation.destructible_out.get(*pos as usize) {
                    if cell.auth == seal.auth_token() {
                        continue;
                    }
                }
                matching = false;
            }''')))
# --- seals of the operation
ok('src-vec-sorted', SRC=rep('SRC', ('BTreeSet<_>', 'Vec<_>')), FIN=rep('FIN', ('seals.extend(seal_sources);', 'seal_sources.sort();\n            seals.extend(seal_sources);')))
ok('src-own-struct', SRC='''            let mut fresh = Fresh { opid, seals: Vec::new() };
            for (pos, seal) in &block.defined_seals {
                fresh.add(*pos, seal.to_src());
            }

''', WIT=rep('WIT', ('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);
''', '''                for (pos, seal) in &block.defined_seals {
                    if seal.to_src().is_none() {
                        fresh.add(*pos, Some(seal.resolve(pub_id)));
                    }
                }
''')), FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(fresh.seals);')), ITEMS='''
struct Fresh<S> {
    opid: Opid,
    seals: Vec<(CellAddr, S)>,
}

impl<S> Fresh<S> {
    fn add(&mut self, pos: u16, seal: Option<S>) {
        let Some(seal) = seal else { return };
        self.seals.push((CellAddr::new(self.opid, pos), seal));
    }
}
''')
ok('src-enum', SRC='''            enum Def<'a, S: RgbSeal> {
                Complete(S),
                Relative(&'a S::Definition),
            }
            let defs: Vec<(u16, Def<Seal>)> = block
                .defined_seals
                .iter()
                .map(|(pos, def)| (*pos, def.to_src().map_or(Def::Relative(def), Def::Complete)))
                .collect();
            let mut seal_sources = Vec::<(CellAddr, Seal)>::new();

''', WIT='''            let witness_id = block.witness.as_ref().map(|w| w.published.pub_id());
            for (pos, def) in defs {
                let addr = CellAddr::new(opid, pos);
                match (def, witness_id) {
                    (Def::Complete(seal), _) => seal_sources.push((addr, seal)),
                    (Def::Relative(def), Some(id)) => seal_sources.push((addr, def.resolve(id))),
                    (Def::Relative(_), None) => {}
                }
            }
''' + B['WIT'].replace(B['WIT'][B['WIT'].index('                //  Each witness'):B['WIT'].index('                self.apply_witness')], ''))
ok('src-into-iter', SRC=rep('SRC', ('.iter()\n                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))', '.clone()\n                .into_iter()\n                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, pos), seal)))')))
ok('src-iter-once', SRC=rep('SRC', ('let mut seal_sources', 'let mut seal_sources')), FIN=rep('FIN', ('seals.extend(seal_sources);', 'for item in seal_sources {\n                seals.extend(core::iter::once(item));\n            }')))
ok('src-inspect', SRC=rep('SRC', ('.iter()\n                .filter_map', '.iter()\n                .inspect(|(pos, _)| debug_assert!(**pos as usize <= u16::MAX as usize))\n                .filter_map')))
ok('src-addr-closure', SRC='            let addr = |pos: &u16| CellAddr::new(opid, *pos);\n' + B['SRC'].replace('CellAddr::new(opid, *pos)', 'addr(pos)'), WIT=B['WIT'].replace('CellAddr::new(opid, *pos)', 'addr(pos)'))
ok('src-addr-literal', SRC=B['SRC'].replace('CellAddr::new(opid, *pos)', 'CellAddr { opid, pos: *pos }'))
ok('src-rc', SRC='            let defs = alloc::rc::Rc::new(block.defined_seals.clone());\n' + B['SRC'].replace('block\n                .defined_seals', 'defs'))
ok('src-cow', SRC='            let defs = alloc::borrow::Cow::Borrowed(&block.defined_seals);\n' + B['SRC'].replace('block\n                .defined_seals', 'defs'))
# --- witness
ok('wit-struct-destructure', WIT=rep('WIT', ('witness.published.pub_id();\n                let iter', 'SealWitness::<Seal>::pub_id_of(&witness);\n                let iter')) if False else B['WIT'])
ok('wit-published-ref', WIT=rep('WIT', ('                witness\n                    .verify_seals', '                let published = &witness.published;\n                witness\n                    .verify_seals'), ('VerificationError::SealsNotClosed(witness.published.pub_id()', 'VerificationError::SealsNotClosed(published.pub_id()'), ('let pub_id = witness.published.pub_id();', 'let pub_id = published.pub_id();')))
ok('wit-slice', WIT=rep('WIT', ('verify_seals_closing(&closed_seals, msg.into())', 'verify_seals_closing(&closed_seals[..], msg.into())')))
ok('wit-boxed-slice', WIT='            let closed_seals = closed_seals.into_boxed_slice();\n' + rep('WIT', ('verify_seals_closing(&closed_seals, msg.into())', 'verify_seals_closing(closed_seals.iter(), msg.into())')))
ok('wit-msg-helper', WIT=rep('WIT', ('let msg = opid.to_byte_array();', 'let msg = message::<Seal>(opid);'), ('msg.into()', 'msg')), ITEMS='''
fn message<S: RgbSeal>(opid: Opid) -> S::Message { S::Message::from(opid.to_byte_array()) }
''')
ok('wit-take', WIT=rep('WIT', ('if let Some(witness) = block.witness {', 'if let Some(witness) = block.witness.take() {')))
ok('wit-loop-option', WIT='''            let has_witness = block.witness.is_some();
            for witness in block.witness {
                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                for (pos, seal) in &block.defined_seals {
                    if let None = seal.to_src() {
                        seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                    }
                }
                self.apply_witness(opid, witness);
            }
            if !(has_witness || closed_seals.is_empty()) {
                return Err(VerificationError::NoWitness(opid));
            }

''')
ok('wit-map-transpose', WIT='''            let pub_id = match &block.witness {
                Some(witness) => Some(close::<Seal>(witness, &closed_seals, opid)?),
                None if !closed_seals.is_empty() => return Err(VerificationError::NoWitness(opid)),
                None => None,
            };
            if let (Some(witness), Some(pub_id)) = (block.witness, pub_id) {
                seal_sources.extend(
                    block
                        .defined_seals
                        .iter()
                        .filter(|(_, seal)| seal.to_src().is_none())
                        .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                );
                self.apply_witness(opid, witness);
            }

''', ITEMS='''
fn close<S: RgbSeal>(witness: &SealWitness<S>, seals: &[S], opid: Opid) -> Result<S::WitnessId, VerificationError<S>> {
    let id = witness.published.pub_id();
    match witness.verify_seals_closing(seals, opid.to_byte_array().into()) {
        Ok(()) => Ok(id),
        Err(e) => Err(VerificationError::SealsNotClosed(id, opid, e)),
    }
}
''')
# --- seals.rs
ok('seal-to-src-if-let', TOSRC='''            if let WOutpoint::Extern(primary) = self.primary {
                let secondary = self.secondary;
                Some(TxoSeal { primary, secondary })
            } else {
                None
            }
''')
ok('seal-to-src-let-else', TOSRC='''            let Self { primary: WOutpoint::Extern(primary), secondary } = *self else {
                return None;
            };
            Some(TxoSeal { primary, secondary })
''')
ok('seal-resolve-via-src', RES='''            if let Some(seal) = self.to_src() {
                return seal;
            }
            match self.primary {
                WOutpoint::Wout(vout) => TxoSeal { primary: Outpoint::new(witness_id, vout), secondary: self.secondary },
                WOutpoint::Extern(primary) => TxoSeal { primary, secondary: self.secondary },
            }
''')
ok('seal-resolve-literal', RES=SB['RES'].replace('Outpoint::new(witness_id, wout)', 'Outpoint { txid: witness_id, vout: wout }'))
ok('seal-helper-primary', RES='''            self.complete(|vout| Some(Outpoint::new(witness_id, vout))).expect("a witness is given")
''' if False else '''            let primary = primary(&self.primary).unwrap_or_else(|vout| Outpoint::new(witness_id, vout));
            TxoSeal { primary, secondary: self.secondary }
''', TOSRC='''            let primary = primary(&self.primary).ok()?;
            Some(TxoSeal { primary, secondary: self.secondary })
''', SITEMS='''    fn primary(outpoint: &WOutpoint) -> Result<Outpoint, bp::Vout> {
        match *outpoint {
            WOutpoint::Extern(outpoint) => Ok(outpoint),
            WOutpoint::Wout(vout) => Err(vout),
        }
    }
''')
ok('seal-auth-const', AUTH='''            const LEN: usize = 30;
            let id = self.commit_id().to_byte_array();
            let mut token = [0u8; LEN];
            for (to, from) in token.iter_mut().zip(id.iter().take(LEN)) {
                *to = *from;
            }
            AuthToken::from_byte_array(token)
''')
ok('seal-auth-try-into', AUTH='''            let id = self.commit_id().to_byte_array();
            let shortened_id: [u8; 30] = id[..30].try_into().expect("32-byte hash");
            AuthToken::from_byte_array(shortened_id)
''')
ok('seal-auth-while', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            let mut i = 0;
            while i < shortened_id.len() {
                shortened_id[i] = id[i];
                i += 1;
            }
            AuthToken::from_byte_array(shortened_id)
''')
ok('closed-slice-defined', CLOSED=B['CLOSED'] + '            let _outs = &block.operation.destructible_out[..block.defined_seals.len()];\n\n')
