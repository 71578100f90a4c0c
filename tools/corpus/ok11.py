"""Variants with the same behaviour: loops rewritten with queues, slice patterns, peeking and reversed iterators; larger moves."""
from base import B, SB, EVAL
from ok10 import ALL, rep

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


HEADC = '            // Collect single-use seal closings by the operation\n            let mut closed_seals = Vec::<Seal>::new();\n'
STEP = '''                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }

'''
# --- the loop over inputs
ok('closed-queue', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter().collect::<alloc::collections::VecDeque<_>>();\n            while let Some(input) = inputs.pop_front() {\n' + STEP)
ok('closed-split-first', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let Some((input, rest)) = inputs.split_first() {\n                inputs = rest;\n' + STEP)
ok('closed-slice-pattern', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let [input, rest @ ..] = inputs {\n                inputs = rest;\n' + STEP)
ok('closed-peek', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter().peekable();\n            while inputs.peek().is_some() {\n                let Some(input) = inputs.next() else { break };\n' + STEP)
ok('closed-loop-match', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter();\n            loop {\n                let input = match inputs.next() {\n                    Some(input) => input,\n                    None => break,\n                };\n' + STEP)
ok('closed-enumerate', CLOSED=HEADC + '            for (_no, input) in block.operation.destructible_in.iter().enumerate() {\n' + STEP)
ok('closed-clone-iter', CLOSED=HEADC + '            for input in block.operation.destructible_in.clone() {\n' + STEP)
ok('closed-addrs', CLOSED=HEADC + '''            let addrs = block.operation.destructible_in.iter().map(|input| input.addr).collect::<Vec<_>>();
            for addr in addrs {
                let Some(seal) = seals.remove(&addr) else {
                    return Err(VerificationError::SealUnknown(addr));
                };
                closed_seals.push(seal);
            }

''')
ok('closed-index-get', CLOSED=HEADC + '''            let mut no = 0usize;
            while let Some(input) = block.operation.destructible_in.get(no) {
                no += 1;
''' + STEP)
ok('closed-zip-range', CLOSED=HEADC + '            for (input, _) in block.operation.destructible_in.iter().zip(0u32..) {\n' + STEP)
ok('closed-if-let-else', CLOSED=HEADC + '''            for input in &block.operation.destructible_in {
                if let Some(seal) = seals.remove(&input.addr) {
                    closed_seals.push(seal);
                    continue;
                }
                return Err(VerificationError::SealUnknown(input.addr));
            }

''')
ok('closed-first-missing', CLOSED=HEADC + '''            let mut missing = None;
            for input in &block.operation.destructible_in {
                match seals.remove(&input.addr) {
                    Some(seal) => closed_seals.push(seal),
                    None => {
                        missing = Some(input.addr);
                        break;
                    }
                }
            }
            if let Some(addr) = missing {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
ok('closed-from-fn', CLOSED='''            let mut inputs = block.operation.destructible_in.iter();
            let closed_seals = core::iter::from_fn(|| {
                let input = inputs.next()?;
                Some(seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr)))
            })
            .collect::<Result<Vec<Seal>, VerificationError<Seal>>>()?;

''')
ok('closed-fn-iter', CLOSED='            let closed_seals = close(&mut seals, block.operation.destructible_in.iter().map(|input| input.addr))?;\n\n', ITEMS='''
fn close<S: RgbSeal>(
    seals: &mut BTreeMap<CellAddr, S>,
    addrs: impl IntoIterator<Item = CellAddr>,
) -> Result<Vec<S>, VerificationError<S>> {
    let mut closed = vec![];
    for addr in addrs {
        closed.push(seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?);
    }
    Ok(closed)
}
''')
ok('closed-fn-recursive', CLOSED='            let mut closed_seals = Vec::<Seal>::new();\n            close(&mut seals, &block.operation.destructible_in, &mut closed_seals)?;\n\n', ITEMS='''
fn close<S: RgbSeal>(
    seals: &mut BTreeMap<CellAddr, S>,
    inputs: &[ultrasonic::Input],
    closed: &mut Vec<S>,
) -> Result<(), VerificationError<S>> {
    for input in inputs {
        closed.push(seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?);
    }
    Ok(())
}
''')
# --- matching of definitions
ok('def-rev', MATCH=rep('MATCH', ('block.defined_seals.iter().all(', 'block.defined_seals.iter().rev().all(')))
ok('def-pop-first', MATCH=rep('MATCH', (ALL, '''            let mut left = block.defined_seals.iter().collect::<BTreeMap<_, _>>();
            let mut matching = true;
            while let Some((pos, seal)) = left.pop_first() {
                matching &= block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }''')))
ok('def-while-next', MATCH=rep('MATCH', (ALL, '''            let mut defs = block.defined_seals.iter();
            let mut matching = true;
            while let (true, Some((pos, seal))) = (matching, defs.next()) {
                matching = match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) => cell.auth == seal.auth_token(),
                    None => false,
                };
            }''')))
ok('def-keys-then-values', MATCH=rep('MATCH', (ALL, '''            let in_range = block.defined_seals.keys().all(|pos| (*pos as usize) < block.operation.destructible_out.len());
            let matching = in_range
                && block
                    .defined_seals
                    .iter()
                    .all(|(pos, seal)| block.operation.destructible_out[*pos as usize].auth == seal.auth_token());''')))
ok('def-last-in-range', MATCH=rep('MATCH', (ALL, '''            let in_range = !block.defined_seals.keys().any(|pos| *pos as usize >= block.operation.destructible_out.len());
            let mut matching = in_range;
            if in_range {
                for (pos, seal) in &block.defined_seals {
                    if block.operation.destructible_out[*pos as usize].auth != seal.auth_token() {
                        matching = false;
                    }
                }
            }''')))
ok('def-skip-nth', MATCH=rep('MATCH', ('.get(*pos as usize)', '.iter()\n                    .nth(usize::from(*pos))')))
ok('def-skip-next', MATCH=rep('MATCH', ('.get(*pos as usize)', '.iter()\n                    .skip(usize::from(*pos))\n                    .next()')))
ok('def-first-mismatch', MATCH=rep('MATCH', (ALL, '''            let mismatch = block.defined_seals.iter().find(|(pos, seal)| {
                let cell = block.operation.destructible_out.get(**pos as usize);
                cell.map(|cell| cell.auth) != Some(seal.auth_token())
            });
            let matching = mismatch.is_none();''')))
ok('def-partition', MATCH=rep('MATCH', (ALL, '''            let (_good, bad) = block
                .defined_seals
                .iter()
                .partition::<Vec<_>, _>(|(pos, seal)| {
                    block
                        .operation
                        .destructible_out
                        .get(**pos as usize)
                        .is_some_and(|cell| cell.auth == seal.auth_token())
                });
            let matching = bad.is_empty();''')))
ok('def-early-fn', MATCH=rep('MATCH', (ALL, '            let matching = definitions_match(&block);')), ITEMS='''
fn definitions_match<S: RgbSeal>(block: &OperationSeals<S>) -> bool {
    let cells = &block.operation.destructible_out;
    for (pos, seal) in &block.defined_seals {
        match cells.get(usize::from(*pos)) {
            Some(cell) if cell.auth == seal.auth_token() => {}
            _ => return false,
        }
    }
    true
}
''')
ok('def-method-block', MATCH=rep('MATCH', (ALL, '            let matching = block.is_consistent();')), ITEMS='''
impl<S: RgbSeal> OperationSeals<S> {
    fn is_consistent(&self) -> bool {
        let auth = |pos: u16| self.operation.destructible_out.get(pos as usize).map(|cell| cell.auth);
        self.defined_seals.iter().all(|(pos, seal)| auth(*pos) == Some(seal.auth_token()))
    }
}
''')
ok('def-mismatch-fn', SETS='', MATCH=rep('MATCH', (B['MATCH'][B['MATCH'].index('                let sources'):B['MATCH'].index('            }\n\n')+0], '                return Err(mismatch(opid, &block));\n')) if False else B['MATCH'][:B['MATCH'].index('            if !matching {')] + '''            if !matching {
                return Err(mismatch(opid, &block));
            }

''', ITEMS='''
fn mismatch<S: RgbSeal>(opid: Opid, block: &OperationSeals<S>) -> VerificationError<S> {
    VerificationError::SealsDefinitionMismatch {
        opid,
        reported: block.defined_seals.iter().map(|(_, seal)| seal.auth_token()).collect(),
        defined: block.operation.destructible_out.iter().map(|cell| cell.auth).collect(),
        sources: block.defined_seals.iter().map(|(pos, seal)| (*pos, format!("{seal}"))).collect(),
    }
}
''')
# --- sources
ok('src-rev', SRC=rep('SRC', ('.iter()\n                .filter_map', '.iter()\n                .rev()\n                .filter_map')))
ok('src-rev-for', SRC='''            let mut seal_sources = BTreeSet::new();
            for (pos, seal) in block.defined_seals.iter().rev() {
                if let Some(src) = seal.to_src() {
                    seal_sources.insert((CellAddr::new(opid, *pos), src));
                }
            }

''')
ok('src-map-coll', SRC=rep('SRC', ('BTreeSet<_>', 'BTreeMap<_, _>')))
ok('src-own-loop-both', SRC='''            let mut seal_sources = Vec::new();
            let mut relative = Vec::new();
            for (pos, seal) in &block.defined_seals {
                let addr = CellAddr::new(opid, *pos);
                if let Some(src) = seal.to_src() {
                    seal_sources.push((addr, src));
                } else {
                    relative.push((addr, seal));
                }
            }

''', WIT=rep('WIT', ('''                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
''', '                let iter = relative.into_iter().map(|(addr, seal)| (addr, seal.resolve(pub_id)));\n')))
ok('src-direct', SRC='', WIT=rep('WIT', ('''                seal_sources.extend(iter);
''', '                seals.extend(iter);\n')), FIN=rep('FIN', ('            seals.extend(seal_sources);\n', '''            for (pos, seal) in &block.defined_seals {
                if let Some(src) = seal.to_src() {
                    seals.insert(CellAddr::new(opid, *pos), src);
                }
            }
''')))
ok('src-per-def', SRC='            let pub_id = block.witness.as_ref().map(|witness| witness.published.pub_id());\n            let seal_sources = block.defined_seals.iter().filter_map(|(pos, seal)| {\n                let seal = seal.to_src().or_else(|| pub_id.map(|pub_id| seal.resolve(pub_id)))?;\n                Some((CellAddr::new(opid, *pos), seal))\n            }).collect::<Vec<_>>();\n\n', WIT=B['WIT'][:B['WIT'].index('                //  Each')] + '                self.apply_witness(opid, witness);\n' + B['WIT'][B['WIT'].index('            } else if'):])
ok('src-match-pub', SRC='', WIT=B['WIT'].replace('if let Some(witness) = block.witness {', 'let mut pub_id = None;\n            if let Some(witness) = block.witness {').replace(B['WIT'][B['WIT'].index('                //  Each'):B['WIT'].index('                self.apply_witness')], '                pub_id = Some(witness.published.pub_id());\n'), FIN=rep('FIN', ('            seals.extend(seal_sources);\n', '''            seals.extend(block.defined_seals.iter().filter_map(|(pos, seal)| {
                let src = match (seal.to_src(), pub_id) {
                    (Some(src), _) => src,
                    (None, Some(pub_id)) => seal.resolve(pub_id),
                    (None, None) => return None,
                };
                Some((CellAddr::new(opid, *pos), src))
            }));
''')))
# --- the whole
ok('wit-match-whole', WIT='''            match block.witness {
                None if closed_seals.is_empty() => {}
                None => return Err(VerificationError::NoWitness(opid)),
                Some(witness) => {
                    let pub_id = witness.published.pub_id();
                    if let Err(err) = witness.verify_seals_closing(&closed_seals, opid.to_byte_array().into()) {
                        return Err(VerificationError::SealsNotClosed(pub_id, opid, err));
                    }
                    for (pos, seal) in &block.defined_seals {
                        if seal.to_src().is_none() {
                            seal_sources.insert((CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                        }
                    }
                    self.apply_witness(opid, witness);
                }
            }

''')
ok('gen-enumerate', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut height = 0u64;')), GEN=rep('GEN', ('if is_genesis {', 'let is_genesis = height == 0;\n            height = height.saturating_add(1);\n            if is_genesis {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {', 'if let (false, Some(operation)) = (is_genesis, operation) {')))
ok('gen-option-codex', PRE=rep('PRE', ('let codex_id = self.codex().codex_id();', 'let mut codex_id = Some(self.codex().codex_id());'), ('        let mut is_genesis = true;\n', '')), GEN='''            let is_genesis = codex_id.is_some();
            if let Some(codex_id) = codex_id.take() {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {', 'if let Some(operation) = operation.filter(|_| !is_genesis) {')))
ok('gen-iter-bytes', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '!block.operation.contract_id.to_byte_array().iter().eq(codex_id.to_byte_array().iter())')))
ok('gen-zip-any', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', 'block.operation.contract_id.to_byte_array().iter().zip(codex_id.to_byte_array().iter()).any(|(a, b)| a != b)')))
ok('known-let-else', KNOWN='''            let mut operation = None;
            if !self.is_known(opid) {
                match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(verified) => operation = Some(verified),
                    Err(err) => return Err(err.into()),
                }
            }

''')
ok('known-closure', KNOWN='''            let verify = |this: &Self, operation| this.codex().verify(contract_id, operation, this.memory(), this.repo());
            let operation = match self.is_known(opid) {
                true => None,
                false => Some(verify(self, block.operation)?),
            };

''')
ok('fin-flat', FIN='''            for (addr, seal) in seal_sources {
                seals.insert(addr, seal);
            }
            match operation {
                Some(operation) if !is_genesis => self.apply_operation(operation),
                _ => {}
            }
            is_genesis = false;

''')
ok('fin-iter-option', FIN='''            seal_sources.into_iter().for_each(|(addr, seal)| drop(seals.insert(addr, seal)));
            if !core::mem::take(&mut is_genesis) {
                operation.into_iter().for_each(|operation| self.apply_operation(operation));
            }

''')
ok('seals-some', SEALS='''            let defs = Some(block.defined_seals).filter(|defs| !defs.is_empty());
            if let Some(defs) = defs {
                self.apply_seals(opid, defs);
            }
        }

''')
ok('seals-len-zero', SEALS=rep('SEALS', ('!block.defined_seals.is_empty()', 'block.defined_seals.len() > 0')))
ok('seals-iter-next', SEALS=rep('SEALS', ('!block.defined_seals.is_empty()', 'block.defined_seals.iter().next().is_some()')))
ok('stage-enum', KNOWN=rep('KNOWN', ('None\n            } else', 'Stage::Known\n            } else'), ('Some(verified)', 'Stage::Fresh(verified)')), FIN=rep('FIN', ('if let Some(operation) = operation', 'if let Stage::Fresh(operation) = operation')), ITEMS='''
enum Stage {
    Known,
    Fresh(VerifiedOperation),
}
''')
ok('ctx-struct', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut ctx = Ctx { first: true, count: 0 };')), GEN=rep('GEN', ('if is_genesis {', 'ctx.count += 1;\n            if ctx.first {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            }', 'if ctx.take_first() {\n            }')), ITEMS='''
struct Ctx {
    first: bool,
    count: u128,
}
impl Ctx {
    fn take_first(&mut self) -> bool { core::mem::replace(&mut self.first, false) }
}
''') if False else None
ok('ctx-struct', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut ctx = Ctx { first: true };')), GEN=rep('GEN', ('if is_genesis {', 'if ctx.first {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            }', 'if ctx.take_first() {\n                // genesis is never applied\n            }')), ITEMS='''
struct Ctx {
    first: bool,
}
impl Ctx {
    fn take_first(&mut self) -> bool { core::mem::replace(&mut self.first, false) }
}
''')
# --- the seals
ok('auth-iter-copied', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for (dst, src) in shortened_id.iter_mut().zip(id) {
                *dst = src;
            }
            AuthToken::from_byte_array(shortened_id)

''')
ok('auth-split-at', AUTH='''            let id = self.commit_id().to_byte_array();
            let (head, _tail) = id.split_at(30);
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(head);
            AuthToken::from_byte_array(shortened_id)

''')
ok('auth-drop', AUTH='''            let mut id = self.commit_id().to_byte_array().to_vec();
            id.truncate(30);
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(&id);
            AuthToken::from_byte_array(shortened_id)

''')
ok('auth-take', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            let len = shortened_id.len();
            shortened_id[..len].clone_from_slice(&id[..len]);
            AuthToken::from_byte_array(shortened_id)

''')
ok('res-mut', RES='''            let mut primary = Outpoint::new(witness_id, bp::Vout::from_u32(0));
            if let WOutpoint::Extern(outpoint) = self.primary {
                primary = outpoint;
            } else if let WOutpoint::Wout(wout) = self.primary {
                primary = Outpoint::new(witness_id, wout);
            }
            TxoSeal { primary, secondary: self.secondary }

''')
ok('res-to-src-else', RES='''            let WOutpoint::Wout(wout) = self.primary else {
                if let WOutpoint::Extern(outpoint) = self.primary {
                    return TxoSeal { primary: outpoint, secondary: self.secondary };
                }
                unreachable!()
            };
            TxoSeal { primary: Outpoint::new(witness_id, wout), secondary: self.secondary }

''')
VARIANTS = {k: v for k, v in VARIANTS.items() if v}
