"""Still more variants of the source with the same behaviour: library functions and forms not used by the others."""
from base import B, SB, EVAL

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


def ev(**kw):
    t = EVAL
    for k, x in kw.items():
        assert B[k] in t, k
        t = t.replace(B[k], x)
    return t


# --- seals
ok('auth-array-from-fn', AUTH='''            let id = self.commit_id().to_byte_array();
            AuthToken::from_byte_array(core::array::from_fn(|i| id[i]))
''')
ok('auth-as-chunks', AUTH='''            let id = self.commit_id().to_byte_array();
            let [head @ .., _, _] = id;
            AuthToken::from_byte_array(head)
''')
ok('auth-pattern-ref', AUTH='''            let id = self.commit_id().to_byte_array();
            let (head, _tail) = id.split_at(30);
            let mut token = <[u8; 30]>::default();
            token.clone_from_slice(head);
            AuthToken::from_byte_array(token)
''')
ok('auth-rev-loop', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut token = [0u8; 30];
            for i in (0..token.len()).rev() {
                token[i] = id[i];
            }
            AuthToken::from_byte_array(token)
''')
ok('auth-iter-mut-copied', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut token = [0u8; 30];
            token.iter_mut().zip(id.iter().copied()).for_each(|(t, b)| *t = b);
            AuthToken::from_byte_array(token)
''')
ok('auth-truncate', AUTH='''            let mut id = self.commit_id().to_byte_array().to_vec();
            id.truncate(30);
            let token: [u8; 30] = match id.try_into() {
                Ok(token) => token,
                Err(_) => unreachable!("thirty bytes"),
            };
            AuthToken::from_byte_array(token)
''')
ok('auth-trait', AUTH='''            self.commit_id().to_byte_array().shortened().into_token()
''', SITEMS='''
    trait Shorten<const N: usize> {
        fn shortened(self) -> [u8; N];
    }
    impl Shorten<30> for [u8; 32] {
        fn shortened(self) -> [u8; 30] {
            let mut out = [0u8; 30];
            out.copy_from_slice(&self[..30]);
            out
        }
    }
    trait IntoToken {
        fn into_token(self) -> AuthToken;
    }
    impl IntoToken for [u8; 30] {
        fn into_token(self) -> AuthToken { AuthToken::from_byte_array(self) }
    }
''')
ok('res-closure', RES='''            let on_witness = |vout| Outpoint::new(witness_id, vout);
            TxoSeal {
                primary: match &self.primary {
                    WOutpoint::Extern(outpoint) => *outpoint,
                    WOutpoint::Wout(vout) => on_witness(*vout),
                },
                secondary: self.secondary,
            }
''')
ok('res-early', RES='''            if let Some(seal) = self.to_src() {
                return seal;
            }
            let WOutpoint::Wout(vout) = self.primary else {
                unreachable!("not self-contained")
            };
            TxoSeal { primary: Outpoint::new(witness_id, vout), secondary: self.secondary }
''')
ok('res-literal', RES=SB['RES'].replace('Outpoint::new(witness_id, wout)', 'Outpoint { txid: witness_id, vout: wout }'))
ok('tosrc-question', TOSRC='''            fn known(primary: WOutpoint) -> Option<Outpoint> {
                match primary {
                    WOutpoint::Extern(outpoint) => Some(outpoint),
                    WOutpoint::Wout(..) => None,
                }
            }
            let primary = known(self.primary)?;
            Some(TxoSeal { primary, secondary: self.secondary })
''')
ok('tosrc-if-wout', TOSRC='''            if matches!(self.primary, WOutpoint::Wout(_)) {
                return None;
            }
            match *self {
                WTxoSeal { primary: WOutpoint::Extern(primary), secondary } => Some(TxoSeal { primary, secondary }),
                _ => None,
            }
''')
ok('tosrc-then-some', TOSRC='''            let (ext, outpoint) = match self.primary {
                WOutpoint::Extern(o) => (true, o),
                WOutpoint::Wout(_) => (false, Outpoint::coinbase()),
            };
            ext.then_some(TxoSeal { primary: outpoint, secondary: self.secondary })
''')

# --- definitions
ok('match-all-zip-nth', MATCH=B['MATCH'].replace('.get(*pos as usize)', '.iter().nth(usize::from(*pos))'))
ok('match-try-fold', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });
''', '''            use core::ops::ControlFlow;
            let flow = block.defined_seals.iter().try_fold((), |_, (pos, seal)| {
                match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) if cell.auth == seal.auth_token() => ControlFlow::Continue(()),
                    _ => ControlFlow::Break(*pos),
                }
            });
            let matching = flow.is_continue();
'''))
ok('match-count-eq', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });
''', '''            let matched = block
                .defined_seals
                .iter()
                .filter(|(pos, seal)| {
                    let cell = block.operation.destructible_out.get(usize::from(**pos));
                    cell.map(|cell| cell.auth) == Some(seal.auth_token())
                })
                .count();
            let matching = matched == block.defined_seals.len();
'''))
ok('match-ok-or', MATCH=B['MATCH'].replace('''                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .ok_or(())
                    .is_ok_and(|cell| cell.auth == seal.auth_token())
'''))
ok('match-filter-is-some', MATCH=B['MATCH'].replace('''                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .filter(|cell| cell.auth == seal.auth_token())
                    .is_some()
'''))
ok('match-bitand', MATCH=B['MATCH'].replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });
''', '''            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                matching &= block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }
'''))
ok('match-none-or', MATCH=B['MATCH'].replace('.is_some_and(|cell| cell.auth == seal.auth_token())', '.map_or(false, |cell| seal.auth_token().eq(&cell.auth))'))
ok('sets-extend', SETS='''            let mut defined = BTreeSet::<AuthToken>::new();
            defined.extend(block.operation.destructible_out.iter().map(|cell| cell.auth));
            let mut reported = BTreeSet::<AuthToken>::new();
            for (_, seal) in block.defined_seals.iter() {
                reported.insert(seal.auth_token());
            }
''')
ok('sets-from-iter', SETS='''            let defined = BTreeSet::from_iter(block.operation.destructible_out.iter().map(|cell| cell.auth));
            let reported = BTreeSet::from_iter(block.defined_seals.values().map(RgbSealDef::auth_token));
''')

# --- inputs
ok('closed-capacity', CLOSED='''            // Collect single-use seal closings by the operation
            let mut closed_seals = Vec::<Seal>::with_capacity(block.operation.destructible_in.len());
            for input in block.operation.destructible_in.iter() {
                match seals.remove(&input.addr) {
                    None => return Err(VerificationError::SealUnknown(input.addr)),
                    Some(seal) => closed_seals.push(seal),
                }
            }

''')
ok('closed-result-sum', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| (input.addr, seals.remove(&input.addr)))
                .map(|(addr, seal)| match seal {
                    Some(seal) => Ok(seal),
                    None => Err(VerificationError::SealUnknown(addr)),
                })
                .collect::<Result<Vec<Seal>, VerificationError<Seal>>>()?;

''')
ok('closed-control-flow', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let missing = block.operation.destructible_in.iter().find_map(|input| match seals.remove(&input.addr) {
                Some(seal) => {
                    closed_seals.push(seal);
                    None
                }
                None => Some(input.addr),
            });
            if let Some(addr) = missing {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
ok('closed-take-seal-closure', CLOSED='''            let mut spend = |addr: CellAddr| seals.remove(&addr).ok_or(VerificationError::<Seal>::SealUnknown(addr));
            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                closed_seals.push(spend(input.addr)?);
            }

''')
ok('closed-all', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let mut unknown = None;
            block.operation.destructible_in.iter().all(|input| {
                if let Some(seal) = seals.remove(&input.addr) {
                    closed_seals.push(seal);
                    true
                } else {
                    unknown = Some(input.addr);
                    false
                }
            });
            if let Some(addr) = unknown {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
# --- knownness
ok('known-then-some', KNOWN='''            let is_new = !self.is_known(opid);
            let operation = match is_new {
                true => Some(
                    self.codex()
                        .verify(contract_id, block.operation, self.memory(), self.repo())
                        .map_err(VerificationError::Vm)?,
                ),
                false => None,
            };

''')
ok('known-transpose', KNOWN='''            let operation = (!self.is_known(opid))
                .then(|| self.codex().verify(contract_id, block.operation, self.memory(), self.repo()))
                .transpose()?;

''')
ok('known-let-refs', KNOWN='''            let operation = if !self.is_known(opid) {
                let codex = self.codex();
                let (memory, repo) = (self.memory(), self.repo());
                let outcome = codex.verify(contract_id, block.operation, memory, repo);
                match outcome {
                    Ok(verified) => Some(verified),
                    Err(err) => return Err(err.into()),
                }
            } else {
                None
            };

''')

# --- sources
ok('src-scan', SRC='''            let mut seal_sources = BTreeSet::new();
            block.defined_seals.iter().for_each(|(pos, seal)| {
                if let Some(src) = seal.to_src() {
                    seal_sources.insert((CellAddr::new(opid, *pos), src));
                }
            });

''')
ok('src-map', SRC='''            let mut seal_sources: BTreeMap<CellAddr, Seal> = BTreeMap::new();
            for (pos, def) in &block.defined_seals {
                let Some(src) = def.to_src() else { continue };
                seal_sources.insert(CellAddr::new(opid, *pos), src);
            }

''')
ok('src-literal-addr', SRC=B['SRC'].replace('CellAddr::new(opid, *pos)', 'CellAddr { opid, pos: *pos }'), WIT=B['WIT'].replace('CellAddr::new(opid, *pos)', 'CellAddr { opid, pos: *pos }'))
ok('src-is-some-unwrap', SRC='''            let mut seal_sources = BTreeSet::new();
            for (pos, def) in block.defined_seals.iter() {
                if def.to_src().is_some() {
                    let addr = CellAddr::new(opid, *pos);
                    seal_sources.extend(def.to_src().map(|src| (addr, src)));
                }
            }

''')
ok('src-partition-map', SRC='''            let (fixed, relative): (Vec<_>, Vec<_>) = block
                .defined_seals
                .iter()
                .map(|(pos, def)| (CellAddr::new(opid, *pos), def, def.to_src()))
                .partition(|(_, _, src)| src.is_some());
            let mut seal_sources: BTreeSet<_> = fixed
                .into_iter()
                .filter_map(|(addr, _, src)| Some((addr, src?)))
                .collect();

''', WIT=B['WIT'].replace('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
''', '''                let iter = relative.iter().map(|(addr, seal, _)| (*addr, seal.resolve(pub_id)));
'''))
ok('src-unzip', SRC='''            let mut seal_sources = Vec::<(CellAddr, Seal)>::new();
            let mut open = Vec::<(CellAddr, Seal::Definition)>::new();
            for (pos, def) in &block.defined_seals {
                let addr = CellAddr::new(opid, *pos);
                match def.to_src() {
                    Some(src) => seal_sources.push((addr, src)),
                    None => open.push((addr, def.clone())),
                }
            }

''', WIT=B['WIT'].replace('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
''', '''                let iter = open.into_iter().map(|(addr, def)| (addr, def.resolve(pub_id)));
'''))

# --- witness
ok('wit-take', WIT=B['WIT'].replace('if let Some(witness) = block.witness {', 'if let Some(witness) = block.witness.take() {'))
ok('wit-match-guard', WIT='''            match block.witness {
                None if !closed_seals.is_empty() => return Err(VerificationError::NoWitness(opid)),
                None => {}
                Some(witness) => {
                    let msg = opid.to_byte_array();
                    let pub_id = witness.published.pub_id();
                    if let Err(e) = witness.verify_seals_closing(&closed_seals, msg.into()) {
                        return Err(VerificationError::SealsNotClosed(pub_id, opid, e));
                    }
                    for (pos, seal) in &block.defined_seals {
                        if seal.to_src().is_none() {
                            seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                        }
                    }
                    self.apply_witness(opid, witness);
                }
            }

''')
ok('wit-iter-slice', WIT=B['WIT'].replace('&closed_seals, msg.into()', 'closed_seals.iter(), Seal::Message::from(msg)'))
ok('wit-ok-or-else', WIT='''            let witness = match (closed_seals.is_empty(), block.witness) {
                (_, Some(witness)) => Some(witness),
                (true, None) => None,
                (false, None) => return Err(VerificationError::NoWitness(opid)),
            };
            if let Some(ref witness) = witness {
                witness
                    .verify_seals_closing(&closed_seals, opid.to_byte_array().into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                seal_sources.extend(
                    block
                        .defined_seals
                        .iter()
                        .filter_map(|(pos, seal)| match seal.to_src() {
                            Some(_) => None,
                            None => Some((CellAddr::new(opid, *pos), seal.resolve(pub_id))),
                        }),
                );
            }
            if let Some(witness) = witness {
                self.apply_witness(opid, witness);
            }

''')

# --- end
ok('fin-insert-try-for-each', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '''            for (addr, seal) in seal_sources {
                let _ = seals.insert(addr, seal);
            }
'''))
ok('fin-not-genesis', FIN='''            seals.extend(seal_sources);
            match operation {
                Some(operation) if !is_genesis => self.apply_operation(operation),
                _ => {}
            }
            is_genesis = false;

''')
ok('fin-xor', FIN='''            seals.extend(seal_sources);
            if let Some(operation) = operation.filter(|_| !is_genesis) {
                self.apply_operation(operation);
            }
            is_genesis &= false;

''')
ok('seals-clone', SEALS=B['SEALS'].replace('self.apply_seals(opid, block.defined_seals);', 'let defined_seals = block.defined_seals.clone();\n                self.apply_seals(opid, defined_seals);'))
ok('seals-len-match', SEALS='''            match block.defined_seals.len() {
                0 => {}
                _ => self.apply_seals(opid, block.defined_seals),
            }
        }

''')

# --- whole
ok('cell-flag', PRE=B['PRE'].replace('let mut is_genesis = true;', 'let is_genesis = core::cell::Cell::new(true);'), GEN=B['GEN'].replace('if is_genesis', 'if is_genesis.get()'), FIN=B['FIN'].replace('if is_genesis {\n                is_genesis = false', 'if is_genesis.replace(false) {'))
ok('enum-phase', PRE=B['PRE'].replace('let mut is_genesis = true;', 'let mut phase = Phase::Genesis;'), GEN=B['GEN'].replace('if is_genesis {', 'if phase == Phase::Genesis {'), FIN='''            seals.extend(seal_sources);
            phase = match (phase, operation) {
                (Phase::Genesis, _) | (Phase::Rest, None) => Phase::Rest,
                (Phase::Rest, Some(operation)) => {
                    self.apply_operation(operation);
                    Phase::Rest
                }
            };

''', ITEMS='''
#[derive(Copy, Clone, PartialEq, Eq)]
enum Phase {
    Genesis,
    Rest,
}
''')
ok('deref-registry', PRE=B['PRE'].replace('BTreeMap::<CellAddr, Seal>::new()', 'Registry::<Seal>::default()'), ITEMS='''
struct Registry<S>(BTreeMap<CellAddr, S>);
impl<S> Default for Registry<S> {
    fn default() -> Self { Self(Default::default()) }
}
impl<S> core::ops::Deref for Registry<S> {
    type Target = BTreeMap<CellAddr, S>;
    fn deref(&self) -> &Self::Target { &self.0 }
}
impl<S> core::ops::DerefMut for Registry<S> {
    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
}
''')
ok('index-trait', PRE=B['PRE'], MATCH=B['MATCH'].replace('.get(*pos as usize)', '.as_unconfined()\n                    .get(usize::from(*pos))').replace('block\n                    .operation\n                    .destructible_out\n', 'block\n                    .operation\n                    .destructible_out\n'))
ok('err-alias', USE='use core::result::Result as StdResult;\n', SUB=[('(&mut self, mut reader: R) -> Result<(), VerificationError<Seal>>', '(&mut self, mut reader: R) -> StdResult<(), VerificationError<Seal>>')])
ok('by-ref-reader', EVAL=EVAL.replace('''        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
''', '''        let reader = &mut reader;
        loop {
            let next = match reader.read_operation() {
                Err(e) => return Err(VerificationError::Stream(Box::new(e))),
                Ok(next) => next,
            };
            let Some(mut block) = next else { break };
'''))
ok('break-value', EVAL=EVAL.replace('''        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
''', '''        loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break Ok(()),
                Err(e) => break Err(VerificationError::Stream(Box::new(e))),
            };
''').replace('        Ok(())\n', ''))
ok('witness-method', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn check_closing(&self, closed: &[Seal], opid: Opid) -> Result<Option<Seal::WitnessId>, VerificationError<Seal>> {
        match &self.witness {
            Some(witness) => {
                let id = witness.published.pub_id();
                match witness.verify_seals_closing(closed, opid.to_byte_array().into()) {
                    Ok(()) => Ok(Some(id)),
                    Err(err) => Err(VerificationError::SealsNotClosed(id, opid, err)),
                }
            }
            None if closed.is_empty() => Ok(None),
            None => Err(VerificationError::NoWitness(opid)),
        }
    }
}
''', KNOWN=B['KNOWN'].replace('block.operation, self', 'block.operation.clone(), self'), WIT='''            if let Some(id) = block.check_closing(&closed_seals, opid)? {
                for (pos, seal) in block.defined_seals.iter() {
                    if seal.to_src().is_some() {
                        continue;
                    }
                    seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(id)));
                }
            }
            if let Some(witness) = block.witness.take() {
                self.apply_witness(opid, witness);
            }

''')
ok('matching-method', ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    fn defined(&self) -> BTreeSet<AuthToken> { self.operation.destructible_out.iter().map(|c| c.auth).collect() }
    fn reported(&self) -> BTreeSet<AuthToken> { self.defined_seals.values().map(|s| s.auth_token()).collect() }
    fn is_matching(&self, pos: u16, seal: &Seal::Definition) -> bool {
        let Some(cell) = self.operation.destructible_out.get(pos as usize) else {
            return false;
        };
        cell.auth == seal.auth_token()
    }
    fn mismatch(&self, opid: Opid) -> Option<VerificationError<Seal>> {
        if self.defined_seals.iter().all(|(pos, seal)| self.is_matching(*pos, seal)) {
            return None;
        }
        Some(VerificationError::SealsDefinitionMismatch {
            opid,
            reported: self.reported(),
            defined: self.defined(),
            sources: self.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect(),
        })
    }
}
''', SETS='', MATCH='''            if let Some(err) = block.mismatch(opid) {
                return Err(err);
            }

''')
ok('sources-loop', MATCH=B['MATCH'].replace('''                let sources = block
                    .defined_seals
                    .iter()
                    .map(|(pos, seal)| (*pos, seal.to_string()))
                    .collect();
''', '''                let mut sources = BTreeMap::new();
                for (pos, seal) in block.defined_seals.iter() {
                    sources.insert(*pos, format!("{seal}"));
                }
'''))
ok('tuple-return', ITEMS='''
type Spent<S> = (Vec<S>, BTreeMap<CellAddr, S>);
fn spend<S: RgbSeal>(op: &Operation, mut seals: BTreeMap<CellAddr, S>) -> Result<Spent<S>, CellAddr> {
    let mut spent = Vec::new();
    for input in &op.destructible_in {
        spent.push(seals.remove(&input.addr).ok_or(input.addr)?);
    }
    Ok((spent, seals))
}
''', CLOSED='''            let (closed_seals, rest) = spend(&block.operation, seals).map_err(VerificationError::SealUnknown)?;
            seals = rest;

''')
ok('take-registry', CLOSED='''            let mut rest = core::mem::take(&mut seals);
            let mut closed_seals = Vec::new();
            for input in &block.operation.destructible_in {
                let Some(seal) = rest.remove(&input.addr) else {
                    return Err(VerificationError::SealUnknown(input.addr));
                };
                closed_seals.push(seal);
            }
            seals = rest;

''')
ok('boxed-closures', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '''            let mut put: Box<dyn FnMut((CellAddr, Seal))> = Box::new(|(addr, seal)| {
                seals.insert(addr, seal);
            });
            for item in seal_sources {
                put(item);
            }
            drop(put);
'''))
