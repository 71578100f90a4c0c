"""Variants with the same behaviour: boxes and references to the state, helpers of many kinds, seals.rs."""
from base import B, SB, EVAL
from ok10 import ALL, rep
from ok11 import HEADC, STEP
from ok12 import match

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


# --- where the state lives
ok('state-boxed', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut is_genesis = Box::new(true);')), GEN=rep('GEN', ('if is_genesis', 'if *is_genesis')),
   FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false', 'if *is_genesis {\n                *is_genesis = false')))
ok('state-boxed-helper', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut is_genesis = Box::new(true);')), GEN=rep('GEN', ('if is_genesis', 'if *is_genesis')),
   FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else', 'if once(&mut is_genesis) {\n            } else')), ITEMS='''
fn once(flag: &mut bool) -> bool { core::mem::replace(flag, false) }
''')
ok('reg-boxed-helpers', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'Box::new(BTreeMap::<CellAddr, Seal>::new())')),
   CLOSED='            let closed_seals = take_all(&mut seals, &block.operation.destructible_in)?;\n\n', FIN=rep('FIN', ('seals.extend(seal_sources);', 'put_all(&mut seals, seal_sources);')), ITEMS='''
fn take_all<S: RgbSeal>(seals: &mut BTreeMap<CellAddr, S>, inputs: &[ultrasonic::Input]) -> Result<Vec<S>, VerificationError<S>> {
    inputs
        .iter()
        .map(|input| seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
        .collect()
}

fn put_all<S: RgbSeal>(seals: &mut BTreeMap<CellAddr, S>, sources: BTreeSet<(CellAddr, S)>) {
    for (addr, seal) in sources {
        seals.insert(addr, seal);
    }
}
''')
ok('closed-boxed', CLOSED='''            let mut closed_seals = Box::new(Vec::<Seal>::new());
            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }

''', WIT=rep('WIT', ('&closed_seals', '&*closed_seals')))
ok('closed-boxed-fill', CLOSED='''            let mut closed_seals = Box::new(Vec::<Seal>::new());
            fill(&mut closed_seals, &mut seals, &block.operation)?;

''', WIT=rep('WIT', ('&closed_seals', '&*closed_seals')), ITEMS='''
fn fill<S: RgbSeal>(to: &mut Vec<S>, from: &mut BTreeMap<CellAddr, S>, op: &Operation) -> Result<(), VerificationError<S>> {
    for input in &op.destructible_in {
        to.push(from.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?);
    }
    Ok(())
}
''')
ok('closed-fill-iter', CLOSED='''            let mut closed_seals = Vec::<Seal>::with_capacity(block.operation.destructible_in.len());
            fill(&mut closed_seals, |addr| seals.remove(&addr), block.operation.destructible_in.iter().map(|input| input.addr))?;

''', ITEMS='''
fn fill<S: RgbSeal>(
    to: &mut Vec<S>,
    mut find: impl FnMut(CellAddr) -> Option<S>,
    addrs: impl Iterator<Item = CellAddr>,
) -> Result<(), VerificationError<S>> {
    for addr in addrs {
        let Some(seal) = find(addr) else { return Err(VerificationError::SealUnknown(addr)) };
        to.push(seal);
    }
    Ok(())
}
''')
ok('closed-dyn-find', CLOSED='''            let find: &mut dyn FnMut(CellAddr) -> Result<Seal, CellAddr> = &mut |addr| seals.remove(&addr).ok_or(addr);
            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| find(input.addr))
                .collect::<Result<Vec<_>, _>>()
                .map_err(VerificationError::SealUnknown)?;

''')
ok('closed-result-sum', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            block
                .operation
                .destructible_in
                .iter()
                .map(|input| input.addr)
                .try_for_each(|addr| {
                    closed_seals.push(seals.remove(&addr).ok_or(addr)?);
                    Ok(())
                })
                .map_err(VerificationError::SealUnknown)?;

''')
ok('closed-block-value', CLOSED='''            let closed_seals = {
                let mut closed = vec![];
                for addr in block.operation.destructible_in.iter().map(|i| i.addr) {
                    closed.push(match seals.remove(&addr) {
                        None => return Err(VerificationError::SealUnknown(addr)),
                        Some(seal) => seal,
                    });
                }
                closed
            };

''', USE='use alloc::vec;\n')
ok('closed-err-first', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                let seal = seals.remove(&input.addr);
                if seal.is_none() {
                    return Err(VerificationError::SealUnknown(input.addr));
                }
                closed_seals.extend(seal);
            }

''')
ok('closed-retain-none', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for ultrasonic::Input { addr, .. } in block.operation.destructible_in.iter() {
                if let Some(seal) = seals.remove(addr) {
                    closed_seals.push(seal);
                    continue;
                }
                return Err(VerificationError::SealUnknown(*addr));
            }

''')
# --- genesis
ok('gen-then', GEN='''            is_genesis
                .then_some(codex_id.to_byte_array())
                .filter(|id| *id != block.operation.contract_id.to_byte_array())
                .map_or(Ok(()), |_| Err(VerificationError::NoCodexCommitment))?;
            if is_genesis {
                block.operation.contract_id = contract_id;
            }
''')
ok('gen-fn-block', GEN='''            if is_genesis {
                commit_to(&mut block, codex_id, contract_id)?;
            }
''', ITEMS='''
fn commit_to<S: RgbSeal>(block: &mut OperationSeals<S>, codex_id: ultrasonic::CodexId, contract_id: ContractId) -> Result<(), VerificationError<S>> {
    let id = &mut block.operation.contract_id;
    if id.to_byte_array() != codex_id.to_byte_array() {
        return Err(VerificationError::NoCodexCommitment);
    }
    *id = contract_id;
    Ok(())
}
''')
ok('gen-fn-value', GEN='''            let block = if is_genesis { genesis(block, codex_id, contract_id)? } else { block };
''', HEAD=rep('HEAD', ('Some(mut block)', 'Some(block)')), ITEMS='''
fn genesis<S: RgbSeal>(
    mut block: OperationSeals<S>,
    codex_id: ultrasonic::CodexId,
    contract_id: ContractId,
) -> Result<OperationSeals<S>, VerificationError<S>> {
    if block.operation.contract_id.to_byte_array() == codex_id.to_byte_array() {
        block.operation.contract_id = contract_id;
        Ok(block)
    } else {
        Err(VerificationError::NoCodexCommitment)
    }
}
''')
ok('gen-bytes-first', PRE=rep('PRE', ('let codex_id = self.codex().codex_id();', 'let codex_id = self.codex().codex_id().to_byte_array();')),
   GEN=rep('GEN', ('codex_id.to_byte_array()', 'codex_id')))
ok('gen-contract-from', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', 'block.operation.contract_id != ContractId::from_byte_array(codex_id.to_byte_array())')))
ok('gen-mem-replace', GEN='''            if is_genesis {
                let committed = core::mem::replace(&mut block.operation.contract_id, contract_id);
                if committed.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
            }
''')
# --- the definitions
ok('def-split-fn', MATCH=match('''            fn matches<D: RgbSealDef>(op: &Operation, pos: u16, seal: &D) -> bool {
                match op.destructible_out.get(usize::from(pos)) {
                    None => false,
                    Some(cell) => cell.auth == seal.auth_token(),
                }
            }
            let matching = block.defined_seals.iter().all(|(&pos, seal)| matches(&block.operation, pos, seal));'''))
ok('def-not-any', MATCH=match('''            let matching = !block.defined_seals.iter().any(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).map(|cell| cell.auth) != Some(seal.auth_token())
            });'''))
ok('def-try-for-each', MATCH=match('''            let matching = block
                .defined_seals
                .iter()
                .try_for_each(|(pos, seal)| {
                    let cell = block.operation.destructible_out.get(*pos as usize)?;
                    (cell.auth == seal.auth_token()).then_some(())
                })
                .is_some();'''))
ok('def-filter-count', MATCH=match('''            let wrong = block
                .defined_seals
                .iter()
                .filter(|(pos, seal)| {
                    !block.operation.destructible_out.get(**pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
                })
                .count();
            let matching = wrong == 0;'''))
ok('def-auths-get', MATCH=match('''            let auths = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
            let matching = block.defined_seals.iter().all(|(pos, seal)| auths.get(*pos as usize) == Some(&seal.auth_token()));'''))
ok('def-index', MATCH=match('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                let pos = *pos as usize;
                pos < block.operation.destructible_out.len() && block.operation.destructible_out[pos].auth == seal.auth_token()
            });'''))
ok('def-while-let', MATCH=match('''            let mut matching = true;
            let mut defs = block.defined_seals.iter();
            while let (true, Some((pos, seal))) = (matching, defs.next()) {
                matching = block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }'''))
# --- the sources
ok('src-match-tuple', SRC='''            let mut seal_sources = BTreeSet::new();
            for (&pos, def) in block.defined_seals.iter() {
                match (CellAddr::new(opid, pos), def.to_src()) {
                    (addr, Some(seal)) => drop(seal_sources.insert((addr, seal))),
                    (_, None) => {}
                }
            }

''')
ok('src-vec', SRC='''            let mut seal_sources = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))
                .collect::<Vec<_>>();

''')
ok('src-fn-ptr', SRC='''            let mut seal_sources = sources::<Seal>(&block.defined_seals, opid, |seal| seal.to_src());

''', ITEMS='''
fn sources<S: RgbSeal>(defs: &SmallOrdMap<u16, S::Definition>, opid: Opid, find: fn(&S::Definition) -> Option<S>) -> BTreeSet<(CellAddr, S)> {
    let mut set = BTreeSet::new();
    for (pos, def) in defs {
        if let Some(src) = find(def) {
            set.insert((CellAddr::new(opid, *pos), src));
        }
    }
    set
}
''')
ok('src-shared-fn', SRC='''            let mut seal_sources = sources(&block, opid, |seal| seal.to_src());

''', WIT=rep('WIT', ('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);
''', '''                seal_sources.append(&mut sources(&block, opid, |seal| seal.to_src().is_none().then(|| seal.resolve(pub_id))));
''')), ITEMS='''
fn sources<S: RgbSeal>(block: &OperationSeals<S>, opid: Opid, find: impl Fn(&S::Definition) -> Option<S>) -> BTreeSet<(CellAddr, S)> {
    block
        .defined_seals
        .iter()
        .flat_map(|(pos, def)| find(def).map(|src| (CellAddr::new(opid, *pos), src)))
        .collect()
}
''') if False else None
# --- the witness
ok('wit-msg-array', WIT=rep('WIT', ('let msg = opid.to_byte_array();', 'let msg: [u8; 32] = opid.into_inner().into();'))) if False else None
ok('wit-helper-method', WIT=rep('WIT', ('''                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                check_closing(&witness, &closed_seals, opid)?;
''')), ITEMS='''
fn check_closing<S: RgbSeal>(witness: &SealWitness<S>, seals: &[S], opid: Opid) -> Result<(), VerificationError<S>> {
    match witness.verify_seals_closing(seals, opid.to_byte_array().into()) {
        Ok(()) => Ok(()),
        Err(e) => Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e)),
    }
}
''')
ok('wit-if-let-err', WIT=rep('WIT', ('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                if let Err(err) = witness.verify_seals_closing(&closed_seals, msg.into()) {
                    return Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, err));
                }
''')))
ok('wit-pub-id-first', WIT=rep('WIT', ('                let msg = opid.to_byte_array();\n', '                let pub_id = witness.published.pub_id();\n                let msg = opid.to_byte_array();\n'), ('VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e)', 'VerificationError::SealsNotClosed(pub_id, opid, e)'), ('                //  Each witness actually produces its own set of witness-output-based seal sources.\n                let pub_id = witness.published.pub_id();\n', '')))
ok('wit-none-first', WIT='''            let witness = match block.witness {
                None if closed_seals.is_empty() => None,
                None => return Err(VerificationError::NoWitness(opid)),
                Some(witness) => Some(witness),
            };
''' + B['WIT'].replace('if let Some(witness) = block.witness', 'if let Some(witness) = witness').replace(''' else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }''', ''))
# --- known operations
ok('known-match-bool', KNOWN='''            let operation = match self.is_known(opid) {
                true => None,
                false => Some(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?),
            };

''')
ok('known-let-mut', KNOWN='''            let mut operation = None;
            if !self.is_known(opid) {
                operation = Some(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?);
            }

''')
ok('known-parts', KNOWN='''            let known = self.is_known(opid);
            let operation = if !known {
                let (codex, memory, repo) = (self.codex(), self.memory(), self.repo());
                Some(codex.verify(contract_id, block.operation, memory, repo)?)
            } else {
                None
            };

''')
ok('known-map-err', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(verified) => Some(verified),
                    Err(err) => return Err(VerificationError::Vm(err)),
                }
            };

''')
# --- the end
ok('fin-match', FIN='''            seals.extend(seal_sources);
            match (is_genesis, operation) {
                (true, _) => is_genesis = false,
                (false, Some(operation)) => self.apply_operation(operation),
                (false, None) => {}
            }

''')
ok('fin-filter', FIN='''            seals.extend(seal_sources);
            if let Some(operation) = operation.filter(|_| !is_genesis) {
                self.apply_operation(operation);
            }
            is_genesis = false;

''')
ok('fin-reorder', FIN='''            if let (false, Some(operation)) = (is_genesis, operation) {
                self.apply_operation(operation);
            }
            is_genesis = false;
            seals.extend(seal_sources);

''')
ok('fin-nested', FIN='''            for (addr, seal) in seal_sources {
                let _ = seals.insert(addr, seal);
            }
            if !is_genesis {
                if let Some(operation) = operation {
                    self.apply_operation(operation);
                }
            } else {
                is_genesis = false;
            }

''')
ok('seals-early', SEALS='''            if block.defined_seals.is_empty() {
                continue;
            }
            self.apply_seals(opid, block.defined_seals);
        }

''')
# --- seals.rs
ok('seal-outpoint-fn', SITEMS='''    /// The outpoint at which the seal is defined, or its number among the outputs of the witness.
    fn place(seal: &WTxoSeal) -> Result<Outpoint, bp::Vout> {
        match seal.primary {
            WOutpoint::Extern(outpoint) => Ok(outpoint),
            WOutpoint::Wout(vout) => Err(vout),
        }
    }
''', RES='''            let primary = match place(self) {
                Ok(outpoint) => outpoint,
                Err(vout) => Outpoint::new(witness_id, vout),
            };
            TxoSeal { primary, secondary: self.secondary }
''', TOSRC='''            let Ok(primary) = place(self) else { return None };
            Some(TxoSeal { primary, secondary: self.secondary })
''')
ok('seal-resolve-map-or', RES='''            self.to_src().map_or_else(
                || {
                    let WOutpoint::Wout(vout) = self.primary else { unreachable!() };
                    TxoSeal { primary: Outpoint::new(witness_id, vout), secondary: self.secondary }
                },
                |seal| seal,
            )
''')
ok('seal-clone', RES='''            let WTxoSeal { primary, secondary } = self.clone();
            let primary = match primary {
                WOutpoint::Wout(vout) => Outpoint::new(witness_id, vout),
                WOutpoint::Extern(outpoint) => outpoint,
            };
            TxoSeal { primary, secondary }
''', TOSRC='''            let seal = self.clone();
            match seal.primary {
                WOutpoint::Extern(primary) => Some(TxoSeal { primary, secondary: seal.secondary }),
                WOutpoint::Wout(_) => None,
            }
''')
ok('seal-from-impl', SITEMS='''    struct Complete(Outpoint, bp::seals::TxoSealExt);
    impl From<Complete> for TxoSeal {
        fn from(Complete(primary, secondary): Complete) -> Self { TxoSeal { primary, secondary } }
    }
''', TOSRC='''            match self.primary {
                WOutpoint::Wout(_) => None,
                WOutpoint::Extern(outpoint) => Some(Complete(outpoint, self.secondary).into()),
            }
''')
ok('seal-auth-fn', SITEMS='''    fn shorten(id: [u8; 32]) -> [u8; 30] {
        let mut short = [0u8; 30];
        for (to, from) in short.iter_mut().zip(id) {
            *to = from;
        }
        short
    }
''', AUTH='''            AuthToken::from_byte_array(shorten(self.commit_id().to_byte_array()))
''')
ok('seal-auth-slice-into', AUTH='''            let id = self.commit_id().to_byte_array();
            let short: [u8; 30] = id[..30].try_into().expect("30 of 32 bytes");
            AuthToken::from(short)
''')
ok('seal-auth-const-generic', SITEMS='''    const fn head<const N: usize>(id: [u8; 32]) -> [u8; N] {
        let mut short = [0u8; N];
        let mut i = 0;
        while i < N {
            short[i] = id[i];
            i += 1;
        }
        short
    }
''', AUTH='''            AuthToken::from_byte_array(head::<30>(self.commit_id().to_byte_array()))
''')
ok('seal-auth-range-full', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            let len = shortened_id.len();
            shortened_id[..].clone_from_slice(&id[..len]);
            AuthToken::from_byte_array(shortened_id)
''')
ok('seal-auth-transmute-free', AUTH='''            let [short @ .., _, _] = self.commit_id().to_byte_array();
            AuthToken::from_byte_array(short)
''')
VARIANTS.pop(None, None)
