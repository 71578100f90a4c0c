"""More variants which break a property."""
from base import B, SB, EVAL
VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


def sub(*p):
    return list(p)


# ---- C01
bug('c01-after-known', 'C01', GEN=B['GEN'].replace('if is_genesis {', 'if is_genesis && !block.operation.destructible_out.is_empty() {'))
bug('c01-zero', 'C01', GEN=B['GEN'].replace('!= codex_id.to_byte_array() {', '!= codex_id.to_byte_array() && block.operation.contract_id.to_byte_array() != [0u8; 32] {'))
bug('c01-xor', 'C01', GEN=B['GEN'].replace('''if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {''',
    '''let a = block.operation.contract_id.to_byte_array();
                let b = codex_id.to_byte_array();
                let sum = |x: [u8; 32]| x.iter().fold(0u32, |s, b| s + *b as u32);
                if sum(a) != sum(b) {'''))
bug('c01-genesis-again', 'C03', FIN='''            seals.extend(seal_sources);
            if is_genesis {
                is_genesis = operation.is_none() && block.defined_seals.is_empty();
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }

''')
bug('c01-zip', 'C01', GEN=B['GEN'].replace('''if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {''',
    '''let a = block.operation.contract_id.to_byte_array();
                let b = codex_id.to_byte_array();
                if a.iter().zip(b.iter()).skip(1).any(|(x, y)| x != y) {'''))
bug('c01-any-all', 'C01', GEN=B['GEN'].replace('''if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {''',
    '''let a = block.operation.contract_id.to_byte_array();
                let b = codex_id.to_byte_array();
                if a.iter().zip(b.iter()).all(|(x, y)| x != y) {'''))
# ---- C02
bug('c02-msg-genesis', 'C02', WIT=B['WIT'].replace('let msg = opid.to_byte_array();', 'let msg = if is_genesis { contract_id.to_byte_array() } else { opid.to_byte_array() };'))
bug('c02-report-witness-id', 'C02', SEALS=B['SEALS'].replace('self.apply_seals(opid, block.defined_seals);',
    'self.apply_seals(if closed_seals.is_empty() && !is_genesis { Opid::from(contract_id.to_byte_array()) } else { opid }, block.defined_seals);'))
bug('c02-sorted', 'C02', OPID='''            let opid = {
                let mut operation = block.operation.clone();
                if operation.immutable_out.is_empty() {
                    operation.nonce = ultrasonic::fe256::from(0u64);
                }
                operation.opid()
            };
''')
bug('c02-known-other', 'C02', GEN='            let raw_id = block.operation.opid();\n' + B['GEN'], KNOWN=B['KNOWN'].replace('self.is_known(opid)', 'self.is_known(raw_id)'))
# ---- C03
bug('c03-contract-from-op', 'C03', KNOWN=B['KNOWN'].replace('.verify(contract_id,', '.verify(block.operation.contract_id,'))
bug('c03-empty-op', 'C03', KNOWN=B['KNOWN'].replace('if self.is_known(opid)', 'if self.is_known(opid) || block.operation.destructible_in.is_empty() && block.operation.destructible_out.is_empty() && block.operation.immutable_out.is_empty()'))
bug('c04-witness-skip', 'C04', KNOWN=B['KNOWN'].replace('if self.is_known(opid)', 'if self.is_known(opid) && (is_genesis || block.witness.is_some() || closed_seals.is_empty())'),
    )
bug('c03-apply-needs-seals', 'C03', FIN=B['FIN'].replace('} else if let Some(operation) = operation {\n', '} else if let (Some(operation), true) = (operation, !closed_seals.is_empty() || !block.defined_seals.is_empty()) {\n'))
bug('c03-err-some', 'C03', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(verified) => Some(verified),
                    Err(CallError::NotFound(_)) if !is_genesis => None,
                    Err(e) => return Err(e.into()),
                }
            };

''')
bug('c03-mutated', 'C03', KNOWN=B['KNOWN'].replace('                // Verify the operation\n', '''                if block.operation.destructible_out.is_empty() {
                    block.operation.immutable_in = Default::default();
                }
'''))
# ---- C04
bug('c04-known-nodefs', 'C04', KNOWN=B['KNOWN'].replace('if self.is_known(opid)', 'if self.is_known(opid) && !block.defined_seals.is_empty()'))
bug('c04-genesis-known', 'C04', FIN='''            seals.extend(seal_sources);
            if let Some(operation) = operation {
                self.apply_operation(operation);
            }
            is_genesis = false;

''')
bug('c04-late-known', 'C04', KNOWN='', WIT=B['WIT'] + '''            let operation = if self.is_known(opid) {
                None
            } else {
                let verified = self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?;
                Some(verified)
            };
''')
bug('c04-prev-known', 'C04', PRE=B['PRE'] + '        let mut all_known = true;\n', KNOWN=B['KNOWN'].replace('let operation = if self.is_known(opid)', 'all_known &= self.is_known(opid);\n            let operation = if all_known'))
# ---- C05
MM = B['MATCH']
bug('c05-zip', 'C05', MATCH=MM.replace('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });
''', '''            let matching = block
                .defined_seals
                .values()
                .zip(block.operation.destructible_out.iter())
                .all(|(seal, cell)| cell.auth == seal.auth_token());
'''))
bug('c05-rev', 'C05', MATCH=MM.replace('.get(*pos as usize)', '.get((*pos as usize).min(block.operation.destructible_out.len().saturating_sub(1)))'))
bug('c05-mod', 'C05', MATCH=MM.replace('.get(*pos as usize)', '.get(*pos as usize % block.operation.destructible_out.len().max(1))'))
bug('c05-known-skip', 'C05', MATCH=MM.replace('if !matching {', 'if !matching && !self.is_known(opid) {'))
bug('c05-nowit-skip', 'C05', MATCH=MM.replace('if !matching {', 'if !matching && (is_genesis || block.witness.is_some()) {'))
bug('c05-last', 'C05', MATCH=MM.replace('block.defined_seals.iter().all(', 'block.defined_seals.iter().next_back().into_iter().all('))
bug('c05-skip1', 'C05', MATCH=MM.replace('block.defined_seals.iter().all(', 'block.defined_seals.iter().skip(1).all('))
bug('c05-step', 'C05', MATCH=MM.replace('block.defined_seals.iter().all(', 'block.defined_seals.iter().step_by(2).all('))
bug('c05-immutable', 'C05', MATCH=MM.replace('.is_some_and(|cell| cell.auth == seal.auth_token())', '.map_or(*pos as usize >= block.operation.destructible_out.len() + block.operation.immutable_out.len(), |cell| cell.auth == seal.auth_token())'))
bug('c05-external-only', 'C05', MATCH=MM.replace('block.defined_seals.iter().all(|(pos, seal)| {', 'block.defined_seals.iter().filter(|(_, seal)| seal.to_src().is_some() || block.witness.is_some()).all(|(pos, seal)| {'))
bug('c05-takewhile', 'C05', MATCH=MM.replace('block.defined_seals.iter().all(', 'block.defined_seals.iter().take_while(|(pos, _)| (**pos as usize) < block.operation.destructible_out.len()).all('))
bug('c05-loop-return', 'C05', MATCH='''            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                matching = block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
                if matching {
                    break;
                }
            }
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
# ---- C06
bug('c06-skip', 'C06', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals, msg.into())', '.verify_seals_closing(closed_seals.iter().skip(1), msg.into())'))
bug('c06-take', 'C06', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals, msg.into())', '.verify_seals_closing(closed_seals.iter().take(0xFF), msg.into())'))
bug('c06-slice', 'C06', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals, msg.into())', '.verify_seals_closing(&closed_seals[..closed_seals.len().min(8)], msg.into())'))
bug('c06-filter', 'C06', CLOSED=B['CLOSED'].replace('for input in &block.operation.destructible_in {', 'for input in block.operation.destructible_in.iter().filter(|i| i.addr.opid != opid) {'))
bug('c06-pop', 'C06', CLOSED=B['CLOSED'].replace('''                closed_seals.push(seal);
''', '''                if closed_seals.last() != Some(&seal) {
                    closed_seals.push(seal);
                }
'''))
bug('c06-known-nowit', 'C06', WIT=B['WIT'].replace('else if !closed_seals.is_empty()', 'else if closed_seals.len() > 1 || operation.is_some() && !closed_seals.is_empty()'))
bug('c06-other-msg', 'C06', WIT=B['WIT'].replace('let msg = opid.to_byte_array();', 'let msg = closed_seals.is_empty().then(|| opid.to_byte_array()).unwrap_or_else(|| contract_id.to_byte_array());'))
bug('c06-break', 'C06', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                let Some(seal) = seals.remove(&input.addr) else {
                    if closed_seals.is_empty() {
                        return Err(VerificationError::SealUnknown(input.addr));
                    }
                    break;
                };
                closed_seals.push(seal);
            }

''')
bug('c06-closing-ignored-known', 'C06', 'C08', WIT='''            if let Some(witness) = block.witness {
                let msg = opid.to_byte_array();
                let pub_id = witness.published.pub_id();
                let res = witness.verify_seals_closing(&closed_seals, msg.into());
                if operation.is_some() || is_genesis {
                    res.map_err(|e| VerificationError::SealsNotClosed(pub_id, opid, e))?;
                }
                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);

                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

''')
bug('c06-registry-by-pos', 'C06', 'C07', CLOSED=B['CLOSED'].replace('''.remove(&input.addr)
''', '''.remove(&input.addr)
                    .or_else(|| seals.remove(&CellAddr::new(input.addr.opid, 0)))
'''))
# ---- C07
bug('c07-known-kept', 'C07', CLOSED=B['CLOSED'].replace('''                let seal = seals
                    .remove(&input.addr)
''', '''                let seal = (if self.is_known(opid) { seals.get(&input.addr).cloned() } else { seals.remove(&input.addr) })
'''), SUB=[('pub trait ContractVerify<Seal: RgbSeal>', 'pub trait ContractVerify<Seal: RgbSeal>')])
bug('c07-deferred-remove', 'C07', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }
            let first_input = block.operation.destructible_in.first().map(|i| i.addr);

''', SEALS='''            if let (Some(addr), true, Some(seal)) = (first_input, block.defined_seals.is_empty(), closed_seals.pop()) {
                seals.insert(addr, seal);
            }
''' + B['SEALS'])
bug('c07-remove-all', 'C07', 'C13', CLOSED=B['CLOSED'].replace('''                closed_seals.push(seal);
''', '''                seals.retain(|_, other| other != &seal);
                closed_seals.push(seal);
'''))
bug('c07-clear', 'C09', PRE=B['PRE'], FIN=B['FIN'].replace('seals.extend(seal_sources);', 'if seals.len() > 0xFFFF {\n                seals.clear();\n            }\n            seals.extend(seal_sources);'))
bug('c07-retain-op', 'C07', CLOSED=B['CLOSED'] + '''            if let Some(first) = block.operation.destructible_in.first() {
                seals.retain(|addr, _| addr.opid != first.addr.opid);
            }

''')
# ---- C08
bug('c08-genesis-nowit', 'C08', WIT=B['WIT'].replace('if let Some(witness) = block.witness {', 'if let (Some(witness), false) = (block.witness, is_genesis && closed_seals.is_empty()) {'))
bug('c08-defs', 'C08', WIT=B['WIT'].replace('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                if !closed_seals.is_empty() || !block.defined_seals.is_empty() {
                    witness
                        .verify_seals_closing(&closed_seals, msg.into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                }
'''))
bug('c08-known-again', 'C08', WIT=B['WIT'].replace('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                let checked = witness.verify_seals_closing(&closed_seals, msg.into());
                match checked {
                    Err(e) if operation.is_some() || !closed_seals.is_empty() => {
                        return Err(VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))
                    }
                    _ => {}
                }
'''))
bug('c08-each', 'C08', WIT=B['WIT'].replace('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                for seal in &closed_seals {
                    witness
                        .verify_seals_closing([seal], msg.into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                }
'''))
# ---- C09
bug('c09-or-insert', 'C09', FIN=B['FIN'].replace('seals.extend(seal_sources);', '''for (addr, seal) in seal_sources {
                seals.entry(addr).or_insert(seal);
            }'''))
bug('c09-known-not', 'C09', FIN=B['FIN'].replace('seals.extend(seal_sources);', '''if operation.is_some() || is_genesis || block.defined_seals.len() > 1 {
                seals.extend(seal_sources);
            }'''))
bug('c09-new-only', 'C09', SRC=B['SRC'].replace('seal.to_src().map(', 'seal.to_src().filter(|_| *pos < 0x8000).map('))
bug('c09-resolve-ext', 'C09', WIT=B['WIT'].replace('.filter(|(_, seal)| seal.to_src().is_none())', '.filter(|(_, seal)| seal.to_src().is_none() || !closed_seals.is_empty())'))
bug('c09-witness-only-inputs', 'C09', WIT=B['WIT'].replace('seal_sources.extend(iter);', 'if !closed_seals.is_empty() {\n                    seal_sources.extend(iter);\n                }'))
bug('c09-swap', 'C09', WIT=B['WIT'].replace('seal_sources.extend(iter);', 'seal_sources = iter.collect();'))
bug('c09-dedup', 'C09', SRC='''            let mut seen = BTreeSet::new();
            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .filter(|(_, seal)| seen.insert(seal.clone()))
                .collect();

''')
bug('c09-first-out', 'C09', WIT=B['WIT'].replace('(CellAddr::new(opid, *pos), seal.resolve(pub_id))', '(CellAddr::new(opid, *pos & 0x7FFF), seal.resolve(pub_id))'))
# ---- C10
bug('c10-known-early', 'C10', KNOWN=B['KNOWN'].replace('''            let operation = if self.is_known(opid) {
''', '''            let known = self.is_known(opid);
            if known && !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals.clone());
            }
            let operation = if known {
'''))
bug('c10-break', 'C12', WIT=B['WIT'].replace('return Err(VerificationError::NoWitness(opid));', 'if operation.is_none() {\n                    break;\n                }\n                return Err(VerificationError::NoWitness(opid));'))
bug('c10-collect-errors', 'C10', PRE=B['PRE'] + '        let mut failure = None;\n', WIT=B['WIT'].replace('return Err(VerificationError::NoWitness(opid));', 'failure = Some(VerificationError::NoWitness(opid));\n                continue;'),
    SUB=[('''                self.apply_seals(opid, block.defined_seals);
            }
        }

        Ok(())
''', '''                self.apply_seals(opid, block.defined_seals);
            }
        }

        failure.map_or(Ok(()), Err)
''')])
# ---- C11
bug('c11-twice', 'C11', SEALS=B['SEALS'].replace('self.apply_seals(opid, block.defined_seals);', 'if closed_seals.is_empty() && seals.len() == 2 {\n                    self.apply_seals(opid, block.defined_seals.clone());\n                }\n                self.apply_seals(opid, block.defined_seals);'))
bug('c11-known-seals', 'C11', SEALS=B['SEALS'].replace('if !block.defined_seals.is_empty() {', 'if !block.defined_seals.is_empty() && (known_len != 0 || is_genesis) {'), OPID=B['OPID'] + '            let known_len = block.operation.destructible_out.len().saturating_sub(block.defined_seals.len() * 2);\n')
bug('c11-empty-seals', 'C11', SEALS='''            if !block.defined_seals.is_empty() || !closed_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
        }

''')
bug('c11-op-last', 'C11', FIN='            seals.extend(seal_sources);\n', SEALS='''            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }
        }

''')
bug('c11-witness-known-once', 'C11', WIT=B['WIT'].replace('self.apply_witness(opid, witness);', 'if operation.is_some() || is_genesis || !closed_seals.is_empty() {\n                    self.apply_witness(opid, witness);\n                }'))
bug('c11-seals-filtered', 'C11', SEALS=B['SEALS'].replace('self.apply_seals(opid, block.defined_seals);', '''let reported = SmallOrdMap::from_iter_checked(
                    block.defined_seals.iter().filter(|(pos, _)| seals.contains_key(&CellAddr::new(opid, **pos))).map(|(p, s)| (*p, s.clone())),
                );
                self.apply_seals(opid, reported);'''))
# ---- C12
bug('c12-swallow-known', 'C12', HEAD=B['HEAD'].replace('while let Some(mut block)', 'let mut count = 0usize;\n        while let Some(mut block)').replace('        {\n', '        {\n            count += 1;\n            if count > 0x10000 {\n                return Ok(());\n            }\n'))
bug('c12-wrong-wit-id', 'C12', WIT=B['WIT'].replace('VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e)', 'VerificationError::SealsNotClosed(witness.published.pub_id(), Opid::from(codex_id.to_byte_array()), e)'))
bug('c12-vm-as-unknown', 'C12', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                Some(
                    self.codex()
                        .verify(contract_id, block.operation, self.memory(), self.repo())
                        .map_err(|e| match e {
                            CallError::NoReadOnceInput(addr) => VerificationError::SealUnknown(addr),
                            e => VerificationError::Vm(e),
                        })?,
                )
            };

''')
bug('c12-sources', 'C12', MATCH=MM.replace('''                let sources = block
                    .defined_seals
                    .iter()
''', '''                let sources = block
                    .defined_seals
                    .iter()
                    .skip(1)
'''))
bug('c12-reported-defined', 'C12', MATCH=MM.replace('{ opid, reported, defined, sources }', '{ opid, reported: defined, defined: reported, sources }'))
bug('c12-order-first', 'C12', CLOSED=B['CLOSED'].replace('''.ok_or(VerificationError::SealUnknown(input.addr))?''', '''.ok_or(VerificationError::SealUnknown(block.operation.destructible_in[0].addr))?'''))
bug('c12-read-ahead', 'C12', EVAL=EVAL.replace('''        while let Some(mut block) = reader
            .read_operation()
            .map_err(|e| VerificationError::Stream(Box::new(e)))?
        {
''', '''        let mut next = reader.read_operation().map_err(|e| VerificationError::Stream(Box::new(e)))?;
        while let Some(mut block) = next {
            next = reader.read_operation().unwrap_or(None);
'''))
# ---- C13
bug('c13-genesis-witness', 'C13', WIT='''            if is_genesis && block.witness.is_some() {
                return Err(VerificationError::NoCodexCommitment);
            }
''' + B['WIT'])
bug('c13-unused', 'C13', MATCH=MM.replace('if !matching {', 'if !matching || reported.len() != block.defined_seals.len() {'))
bug('c13-all-defined', 'C13', MATCH=MM.replace('if !matching {', 'if !matching || (operation_new && reported != defined) {'), OPID=B['OPID'] + '            let operation_new = block.witness.is_some() && block.operation.destructible_in.is_empty();\n')
bug('c13-self-known', 'C13', KNOWN=B['KNOWN'].replace('''            let operation = if self.is_known(opid) {
''', '''            let known = self.is_known(opid);
            if known && !is_genesis && seals.is_empty() && !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }
            let operation = if known {
'''))
bug('c13-repeat', 'C13', PRE=B['PRE'] + '        let mut seen = BTreeSet::new();\n', OPID=B['OPID'] + '''            if !seen.insert(opid) {
                return Err(VerificationError::NoWitness(opid));
            }
''')
bug('c13-large', 'C13', CLOSED='''            if block.operation.destructible_in.len() + block.operation.destructible_out.len() > 0xFFFF {
                return Err(VerificationError::NoWitness(opid));
            }
''' + B['CLOSED'])
# ---- C14, C15
bug('c14-mask', 'C14', AUTH=SB['AUTH'].replace('AuthToken::from', 'shortened_id[29] &= 0x7F;\n            AuthToken::from'))
bug('c14-offset', 'C14', AUTH=SB['AUTH'].replace('&id[0..30]', '&id[1..31]'))
bug('c14-extern', 'C14', AUTH=SB['AUTH'].replace('self.commit_id()', 'WTxoSeal { primary: self.primary, secondary: match self.primary { WOutpoint::Extern(o) => bp::seals::TxoSealExt::Fallback(o), _ => self.secondary } }.commit_id()'))
bug('c14-loop-short', 'C14', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for i in 0..29 {
                shortened_id[i] = id[i];
            }
            AuthToken::from_byte_array(shortened_id)
''')
bug('c14-rev', 'C14', AUTH='''            let mut id = self.commit_id().to_byte_array();
            id.reverse();
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(&id[0..30]);
            AuthToken::from_byte_array(shortened_id)
''')
bug('c15-swap', 'C15', RES=SB['RES'].replace('WOutpoint::Extern(outpoint) => outpoint', 'WOutpoint::Extern(outpoint) => Outpoint::new(witness_id, outpoint.vout)'))
bug('c15-zero-txid', 'C15', RES=SB['RES'].replace('WOutpoint::Extern(outpoint) => outpoint', 'WOutpoint::Extern(outpoint) if outpoint.txid == witness_id => Outpoint::new(witness_id, 0u32),\n                WOutpoint::Extern(outpoint) => outpoint'))
bug('c15-coinbase', 'C15', TOSRC=SB['TOSRC'].replace('WOutpoint::Extern(outpoint) => outpoint', 'WOutpoint::Extern(outpoint) if outpoint.is_coinbase() && self.secondary != bp::seals::TxoSealExt::Fallback(Outpoint::coinbase()) => return None,\n                WOutpoint::Extern(outpoint) => outpoint'))
bug('c15-secondary', 'C15', TOSRC=SB['TOSRC'].replace('secondary: self.secondary', 'secondary: bp::seals::TxoSealExt::Fallback(primary)'))
bug('c15-vout', 'C15', RES=SB['RES'].replace('Outpoint::new(witness_id, wout)', 'Outpoint::new(witness_id, wout.into_u32() & 0xFFFF)'))
# ---- C16
bug('c16-unwrap-last', 'C16', CLOSED=B['CLOSED'] + '            if !closed_seals.is_empty() || block.defined_seals.len() > 4 {\n                let _last = block.operation.destructible_in.last().unwrap().addr;\n            }\n')
bug('c16-sub', 'C16', OPID=B['OPID'] + '            let _missing = block.operation.destructible_out.len() - block.defined_seals.len();\n')
bug('c16-confined', 'C16', SETS=B['SETS'] + '            let mut extra = block.operation.destructible_out.clone();\n            extra.push(ultrasonic::StateCell { data: ultrasonic::StateValue::None, auth: block.operation.destructible_out.first().map(|c| c.auth).unwrap_or(AuthToken::from_byte_array([0u8; 30])), lock: None }).unwrap();\n')
bug('c16-div', 'C16', OPID=B['OPID'] + '            let _rate = block.defined_seals.len() / block.operation.destructible_out.len();\n')
bug('c16-expect-witness', 'C16', CLOSED=B['CLOSED'] + '            assert!(closed_seals.is_empty() || block.witness.is_some(), "no witness");\n\n')
bug('c16-recursion', 'C16', 'C23', ITEMS='''
fn depth<Seal: RgbSeal>(block: &OperationSeals<Seal>, n: usize) -> usize {
    if n >= block.operation.destructible_out.len() + 1 && !block.defined_seals.is_empty() { depth(block, n) } else { n }
}
''', OPID=B['OPID'] + '            let _ = depth(&block, 0);\n')
# ---- C17
bug('c17-thread-local', 'C17', ITEMS='''
std::thread_local! { static RUNS: core::cell::Cell<u32> = const { core::cell::Cell::new(0) }; }
''', OPID=B['OPID'] + '            RUNS.with(|r| r.set(r.get().wrapping_add(1)));\n')
bug('c17-time', 'C17', MATCH=MM.replace('if !matching {', 'if !matching && std::time::SystemTime::now() > std::time::UNIX_EPOCH {'))
bug('c17-ptr', 'C17', OPID=B['OPID'] + '            let low = &block as *const _ as usize & 0x10 == 0;\n', SEALS=B['SEALS'].replace('if !block.defined_seals.is_empty() {', 'if !block.defined_seals.is_empty() && (low || !closed_seals.is_empty() || is_genesis || !block.defined_seals.is_empty()) {'))
bug('c17-once', 'C17', ITEMS='''
static CODEX: std::sync::OnceLock<ultrasonic::CodexId> = std::sync::OnceLock::new();
''', PRE=B['PRE'].replace('let codex_id = self.codex().codex_id();', 'let codex_id = *CODEX.get_or_init(|| self.codex().codex_id());'))
bug('c17-hashset', 'C17', ITEMS='', MATCH=MM.replace('let sources = block', 'let order = block.defined_seals.keys().copied().collect::<std::collections::HashSet<u16>>();\n                let _first = order.iter().next();\n                let sources = block'))
bug('c17-env-macro', 'C17', AUTH=SB['AUTH'].replace('AuthToken::from', 'if std::env::args().count() == 0 {\n                shortened_id[0] = 0;\n            }\n            AuthToken::from'))
# ---- C19
bug('c19-rename', 'C19', SUB=[('''    /// Seals defined by an operation.
''', '''    /// Seals defined by an operation.
    #[cfg_attr(feature = "serde", serde(rename(serialize = "seals")))]
''')])
bug('c19-skipif', 'C19', SUB=[('''    /// Seals defined by an operation.
''', '''    /// Seals defined by an operation.
    #[cfg_attr(feature = "serde", serde(default = "SmallOrdMap::new", skip_serializing_if = "no_seals"))]
''')], ITEMS='''
#[cfg(feature = "serde")]
fn no_seals<T>(m: &SmallOrdMap<u16, T>) -> bool { m.len() == 1 }
''')
bug('c19-with', 'C19', SUB=[('''    /// Seals defined by an operation.
''', '''    /// Seals defined by an operation.
    #[cfg_attr(feature = "serde", serde(deserialize_with = "first_seals"))]
''')], ITEMS='''
#[cfg(feature = "serde")]
fn first_seals<'de, D: serde::Deserializer<'de>, T: serde::Deserialize<'de>>(d: D) -> Result<SmallOrdMap<u16, T>, D::Error> {
    let m = <SmallOrdMap<u16, T> as serde::Deserialize>::deserialize(d)?;
    Ok(SmallOrdMap::from_iter_checked(m.into_iter().filter(|(k, _)| *k < 0x100)))
}
''')
# ---- C20
bug('c20-seal-first', 'C20', CLONE=B['CLONE'].replace('defined_seals: self.defined_seals.clone()', 'defined_seals: SmallOrdMap::from_iter_checked(self.defined_seals.iter().filter(|(pos, _)| (**pos as usize) < self.operation.destructible_out.len()).map(|(p, s)| (*p, s.clone())))'))
bug('c20-clone-from', 'C20', SUB=[(B['CLONE'], B['CLONE'] + '''    }

    fn clone_from(&mut self, source: &Self) {
        self.operation = source.operation.clone();
        self.defined_seals = source.defined_seals.clone();
        if source.witness.is_some() {
            self.witness = source.witness.clone();
        }
''')])
# ---- C21
bug('c21-default-hook', 'C21', SUB=[('''    /// Evaluate contract state by verifying''', '''    /// Limit.
    fn limit(&self) -> usize { usize::MAX }

    /// Evaluate contract state by verifying'''), ('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', 'impl<Seal: RgbSeal, C: ContractApi<Seal>> ContractVerify<Seal> for C {}')])
bug('c21-reader-hook', 'C21', SUB=[('''    /// Reads an operation and its seals''', '''    /// Whether the operations are trusted.
    fn trusted(&self) -> bool { false }

    /// Reads an operation and its seals'''), ('if !matching {', 'if !matching && !reader.trusted() {')])
bug('c21-seal-hook', 'C21', SSUB=[('''    /// A type providing corresponding single-use seal definitions.
''', '''    /// Whether to skip.
    const LAX: bool = false;
    /// A type providing corresponding single-use seal definitions.
''')], SUB=[('if !matching {', 'if !matching && !Seal::LAX {')])
bug('c21-client-type', 'C21', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', '''/// Types using the standard procedure.
pub trait Standard {}
impl<Seal: RgbSeal, C: ContractApi<Seal> + Standard + ?Sized> ContractVerify<Seal> for C {}''')], LSUB=[('ContractVerify, ', 'ContractVerify, Standard, ')])
# ---- C22
bug('c22-unsafe-impl', 'C22', SUB=[('// We need manual implementation since', '''unsafe impl<Seal: RgbSeal> Send for VerificationError<Seal> {}
// We need manual implementation since''')], LSUB=[('    unsafe_code,\n', '')])
bug('c22-get-unchecked', 'C22', LSUB=[('    unsafe_code,\n', '')], MATCH=MM.replace('''                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())''', '''                    .get(*pos as usize)
                    .is_some_and(|cell| unsafe { *(&cell.auth as *const AuthToken) } == seal.auth_token())'''))
bug('c22-macro', 'C22', LSUB=[('    unsafe_code,\n', '')], USE='''
macro_rules! raw {
    ($e:expr) => {
        unsafe { core::ptr::read(&$e) }
    };
}
''', OPID=B['OPID'] + '            let _n = raw!(is_genesis);\n')
bug('c22-no-mangle', 'C22', LSUB=[('    unsafe_code,\n', '')], ITEMS='''
#[no_mangle]
extern "C" fn rgb_version() -> u32 { 12 }
''')
# ---- C23
bug('c23-after-err', 'C23', HEAD='''        let mut retries = 0;
        loop {
            let mut block = match reader.read_operation() {
                Ok(Some(block)) => block,
                Ok(None) => break,
                Err(_) if retries < 3 => {
                    retries += 1;
                    continue;
                }
                Err(e) => return Err(VerificationError::Stream(Box::new(e))),
            };
''')
bug('c23-end-twice', 'C23', SUB=[('''                self.apply_seals(opid, block.defined_seals);
            }
        }

        Ok(())
''', '''                self.apply_seals(opid, block.defined_seals);
            }
        }

        if let Err(e) = reader.read_operation() {
            return Err(VerificationError::Stream(Box::new(e)));
        }
        Ok(())
''')])
bug('c23-while-known', 'C23', KNOWN=B['KNOWN'] + '''            let mut probe = opid;
            while self.is_known(probe) && operation.is_none() {
                probe = Opid::from(probe.to_byte_array());
            }
''')
bug('c23-worklist', 'C23', CLOSED=B['CLOSED'] + '''            let mut work = closed_seals.clone();
            while let Some(seal) = work.pop() {
                if seals.values().any(|s| *s == seal) {
                    work.push(seal);
                }
            }

''')
