"""Variants of the source that break a property (WANT: the properties whose checks must report them)."""
VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


CL = '''            // Collect single-use seal closings by the operation
            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
%s
            }

'''
KN = '''            let operation = if %s {
                None
            } else {
                let verified = self
                    .codex()
                    .verify(%s)?;
                Some(verified)
            };

'''
bug('c01-prefix', 'C01', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array()[..31] != codex_id.to_byte_array()[..31] {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
bug('c01-contract-id', 'C01', GEN='''            if is_genesis {
                let committed = block.operation.contract_id;
                if committed != contract_id && committed.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
bug('c01-known-anyway', 'C01', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()
                    && !self.is_known(block.operation.opid())
                {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''')
bug('c02-opid-before', 'C02', GEN='''            let opid = block.operation.opid();
            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
''', OPID='')
bug('c02-all-replaced', 'C02', GEN='''            if is_genesis {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
            }
            block.operation.contract_id = contract_id;
''')
bug('c02-normalise', 'C02', OPID='''            if block.witness.is_none() {
                block.operation.contract_id = contract_id;
            }
            let opid = block.operation.opid();
''')
bug('c03-wrong-memory-contract', 'C03', KNOWN=KN % ('self.is_known(opid)', 'block.operation.contract_id, block.operation, self.memory(), self.repo()'))
bug('c03-trust-witnessless', 'C03', KNOWN=KN % ('self.is_known(opid) || (block.witness.is_none() && block.operation.destructible_out.is_empty())', 'contract_id, block.operation, self.memory(), self.repo()'))
bug('c03-ok', 'C03', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                self.codex().verify(contract_id, block.operation, self.memory(), self.repo()).ok()
            };

''')
bug('c03-vm-nonfatal', 'C03', KNOWN='''            let operation = if self.is_known(opid) {
                None
            } else {
                match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(op) => Some(op),
                    Err(_) if closed_seals.is_empty() && !is_genesis => continue,
                    Err(e) => return Err(e.into()),
                }
            };

''')
bug('c03-apply-skip-nodefs', 'C03', FIN='''            seals.extend(seal_sources);
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                if !block.defined_seals.is_empty() || !closed_seals.is_empty() {
                    self.apply_operation(operation);
                }
            }

''')
bug('c04-reverify', 'C04', KNOWN='''            let known = self.is_known(opid);
            let verified = if known && closed_seals.is_empty() {
                None
            } else {
                Some(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?)
            };
            let operation = verified.filter(|_| !known);

''')
bug('c04-known-late', 'C04', KNOWN='''            let verified = if self.is_known(opid) {
                None
            } else {
                Some(self.codex().verify(contract_id, block.operation, self.memory(), self.repo())?)
            };
            let operation = verified;

''', FIN='''            seals.extend(seal_sources);
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                if !self.is_known(opid) {
                    self.apply_operation(operation);
                }
            }

''')
bug('c04-genesis-apply', 'C04', FIN='''            seals.extend(seal_sources);
            is_genesis = is_genesis && block.defined_seals.is_empty();
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }

''')
bug('c05-set-only', 'C05', MATCH='''            if !reported.is_subset(&defined) {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-missing-pos-ok', 'C05', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).is_none_or(|cell| cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-first-only', 'C05', MATCH='''            let matching = block.defined_seals.iter().zip(block.operation.destructible_out.iter()).all(|((_, seal), cell)| cell.auth == seal.auth_token());
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-u8', 'C05', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as u8 as usize).is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-skip-relative', 'C05', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| seal.to_src().is_none() || cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-take', 'C05', MATCH='''            let matching = block.defined_seals.iter().take(256).all(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-any', 'C05', MATCH='''            let matching = block.defined_seals.is_empty() || block.defined_seals.iter().any(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c05-flag-overwrite', 'C05', MATCH='''            let mut matching = true;
            for (pos, seal) in block.defined_seals.iter() {
                matching = block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token());
            }
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c06-skip-known', 'C06', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                match seals.remove(&input.addr) {
                    Some(seal) => closed_seals.push(seal),
                    None if self.is_known(opid) => {}
                    None => return Err(VerificationError::SealUnknown(input.addr)),
                }
            }

''')
bug('c06-nowit-known', 'C06', WIT='''            let spends = !closed_seals.is_empty();
            if let Some(witness) = block.witness {
                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);
                self.apply_witness(opid, witness);
            } else if spends && operation.is_some() {
                return Err(VerificationError::NoWitness(opid));
            }

''')
bug('c06-dedup', 'C06', SUB=[('''                closed_seals.push(seal);
''', '''                if !closed_seals.contains(&seal) || block.operation.destructible_in.len() < 2 {
                    closed_seals.push(seal);
                }
''')])
bug('c06-first', 'C06', WIT='''            if let Some(witness) = block.witness {
                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(closed_seals.iter().take(1), msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
            }

''')
bug('c06-genesis-seals', 'C06', 'C09', SUB=[('''            seals.extend(seal_sources);
''', '''            if is_genesis || !seal_sources.is_empty() {
                seals = seal_sources.into_iter().collect();
            }
''')])
bug('c07-get', 'C07', CLOSED=CL % '''                let seal = seals
                    .get(&input.addr)
                    .map(|seal| core::mem::replace(&mut *Box::new(block.defined_seals.len()), 0).then_seal(seal))
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);''' if False else CL % '''                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                if self.is_known(opid) {
                    seals.insert(input.addr, seal);
                    continue;
                }
                closed_seals.push(seal);''')
bug('c07-two-phase', 'C07', SUB=[('''                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }
''', '''                if !seals.contains_key(&input.addr) {
                    return Err(VerificationError::SealUnknown(input.addr));
                }
            }
            for input in &block.operation.destructible_in {
                closed_seals.extend(seals.remove(&input.addr));
            }
''')])
bug('c07-restore', 'C07', FIN='''            for (addr, seal) in seal_sources {
                seals.insert(addr, seal);
            }
            if closed_seals.len() == 1 && block.defined_seals.is_empty() {
                for seal in closed_seals {
                    seals.insert(CellAddr::new(opid, 0), seal);
                }
            }
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }

''')
bug('c08-empty', 'C08', SUB=[('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                if !closed_seals.is_empty() {
                    witness
                        .verify_seals_closing(&closed_seals, msg.into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                }
''')])
bug('c08-genesis', 'C08', SUB=[('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                if !is_genesis {
                    witness
                        .verify_seals_closing(&closed_seals, msg.into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                }
''')])
bug('c08-order', 'C10', SUB=[('''                let msg = opid.to_byte_array();
''', '''                let msg = opid.to_byte_array();
                let early = witness.published.pub_id();
                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(early)));
                seals.extend(iter);
                if block.defined_seals.len() > 1 {
                    self.apply_seals(opid, block.defined_seals.clone());
                }
''')])
bug('c09-known-nosrc', 'C09', SUB=[('''            seals.extend(seal_sources);
''', '''            if is_genesis || operation.is_some() || !closed_seals.is_empty() {
                seals.extend(seal_sources);
            }
''')])
bug('c09-pos', 'C09', SUB=[('''                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
''', '''                    .filter(|(_, seal)| seal.to_src().is_none())
                    .enumerate()
                    .map(|(no, (_, seal))| (CellAddr::new(opid, no as u16), seal.resolve(pub_id)));
''')])
bug('c09-resolve-all', 'C09', SUB=[('''                    .filter(|(_, seal)| seal.to_src().is_none())
''', '''                    .filter(|(pos, seal)| seal.to_src().is_none() && **pos < 0xFF)
''')])
bug('c09-setorder', 'C09', SRC='''            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .take(closed_seals.len().max(1))
                .collect();

''')
bug('c10-early-seals', 'C10', SUB=[('''            if let Some(witness) = block.witness {
''', '''            if !block.defined_seals.is_empty() && block.witness.is_some() {
                self.apply_seals(opid, block.defined_seals.clone());
            }
            if let Some(witness) = block.witness {
'''), ('''            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
''', '''            if !block.defined_seals.is_empty() && closed_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
''')])
bug('c10-apply-before-wit', 'C10', FIN='''            seals.extend(seal_sources);

''', SRC='''            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }
            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .collect();

''')
bug('c10-continue', 'C10', 'C12', WIT='''            if let Some(witness) = block.witness {
                let msg = opid.to_byte_array();
                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                let pub_id = witness.published.pub_id();
                let iter = block
                    .defined_seals
                    .iter()
                    .filter(|(_, seal)| seal.to_src().is_none())
                    .map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id)));
                seal_sources.extend(iter);
                self.apply_witness(opid, witness);
            } else if !closed_seals.is_empty() {
                if operation.is_none() {
                    continue;
                }
                return Err(VerificationError::NoWitness(opid));
            }

''')
bug('c11-known-no-witness', 'C11', SUB=[('''                self.apply_witness(opid, witness);
''', '''                if operation.is_some() || is_genesis {
                    self.apply_witness(opid, witness);
                }
''')])
bug('c11-seals-src-only', 'C11', SEALS='''            block.defined_seals.retain(|pos, _| seals.contains_key(&CellAddr::new(opid, *pos)));
            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
        }

''' if False else '''            if !block.defined_seals.is_empty() && block.defined_seals.keys().any(|pos| seals.contains_key(&CellAddr::new(opid, *pos))) {
                self.apply_seals(opid, block.defined_seals);
            }
        }

''')
bug('c11-order', 'C11', FIN='''            seals.extend(seal_sources);
            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals);
            }
            if is_genesis {
                is_genesis = false
            } else if let Some(operation) = operation {
                self.apply_operation(operation);
            }
''', SEALS='''        }

''')
bug('c12-end-early', 'C12', SUB=[('''        let mut is_genesis = true;
''', '''        let mut is_genesis = true;
        let mut no = 0u16;
'''), ('''            let opid = block.operation.opid();
''', '''            let opid = block.operation.opid();
            no = no.wrapping_add(1);
            if no == 0 {
                break;
            }
''')])
bug('c12-stream-err', 'C12', HEAD='''        while let Some(mut block) = match reader.read_operation() {
            Ok(block) => block,
            Err(_) if !is_genesis => None,
            Err(e) => return Err(VerificationError::Stream(Box::new(e))),
        } {
''')
bug('c12-wrong-addr', 'C12', CLOSED=CL % '''                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(CellAddr::new(opid, closed_seals.len() as u16)))?;
                closed_seals.push(seal);''')
bug('c12-wrong-kind', 'C12', SUB=[('''                return Err(VerificationError::NoWitness(opid));
''', '''                return Err(VerificationError::SealUnknown(CellAddr::new(opid, 0)));
''')])
bug('c13-limit', 'C13', OPID='''            let opid = block.operation.opid();
            if block.operation.destructible_out.len() > 0x3FFF {
                return Err(VerificationError::NoWitness(opid));
            }
''')
bug('c13-superset', 'C13', MATCH='''            let matching = reported == defined && block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token())
            }) || block.defined_seals.is_empty();
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c13-witness-no-inputs', 'C13', SUB=[('''                let msg = opid.to_byte_array();
''', '''                let msg = opid.to_byte_array();
                if closed_seals.is_empty() && !is_genesis && operation.is_none() {
                    return Err(VerificationError::NoWitness(opid));
                }
''')])
bug('c14-29', 'C14', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            shortened_id[..29].copy_from_slice(&id[..29]);
            shortened_id[29] = id[29] & 0x7F | id[31] & 0x80;
            AuthToken::from_byte_array(shortened_id)
''')
bug('c14-nosecondary', 'C14', AUTH='''            let id = WTxoSeal { primary: self.primary, secondary: bp::seals::TxoSealExt::Fallback(Outpoint::coinbase()) }.commit_id().to_byte_array();
            let id = if matches!(self.secondary, bp::seals::TxoSealExt::Fallback(_)) { self.commit_id().to_byte_array() } else { id };
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(&id[0..30]);
            AuthToken::from_byte_array(shortened_id)
''')
bug('c14-tail', 'C14', AUTH='''            let id = self.commit_id().to_byte_array();
            let off = if matches!(self.primary, WOutpoint::Extern(_)) { 2 } else { 0 };
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(&id[off..off + 30]);
            AuthToken::from_byte_array(shortened_id)
''')
bug('c15-fallback', 'C15', RES='''            let primary = match self.primary {
                WOutpoint::Wout(wout) => Outpoint::new(witness_id, wout),
                WOutpoint::Extern(outpoint) => outpoint,
            };
            let secondary = match self.secondary {
                bp::seals::TxoSealExt::Noise(_) => bp::seals::TxoSealExt::Fallback(primary),
                other => other,
            };
            TxoSeal { primary, secondary }
''')
bug('c15-extern-zero', 'C15', TOSRC='''            let primary = match self.primary {
                WOutpoint::Wout(_) => return None,
                WOutpoint::Extern(outpoint) if outpoint.vout.into_u32() == u32::MAX => return None,
                WOutpoint::Extern(outpoint) => outpoint,
            };
            Some(TxoSeal { primary, secondary: self.secondary })
''')
bug('c16-index', 'C16', 'C13', MATCH='''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out[*pos as usize].auth == seal.auth_token()
            });
            if !matching {
                let sources = block.defined_seals.iter().map(|(pos, seal)| (*pos, seal.to_string())).collect();
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources });
            }

''')
bug('c16-expect', 'C16', SUB=[('''                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                assert!(block.defined_seals.len() <= 0x8000, "too many seals");
''')])
bug('c16-overflow', 'C16', SUB=[('''        let mut is_genesis = true;
''', '''        let mut is_genesis = true;
        let mut total = 0u16;
'''), ('''            let opid = block.operation.opid();
''', '''            let opid = block.operation.opid();
            total += block.defined_seals.len() as u16;
''')])
bug('c17-hashmap', 'C17', SUB=[('''            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .collect();
''', '''            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .collect();
            if std::env::var_os("RGB_TRACE").is_some() {
                core::hint::black_box(&seal_sources);
            }
''')])
bug('c17-static', 'C17', ITEMS='''
static SEEN: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
''', OPID='''            let opid = block.operation.opid();
            SEEN.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
''')
bug('c18-debug', 'C18', SUB=[('''            if !matching {
''', '''            if cfg!(debug_assertions) && !matching {
''')])
bug('c18-feature', 'C18', SUB=[('''            } else if !closed_seals.is_empty() {
                return Err(VerificationError::NoWitness(opid));
''', '''            } else if !closed_seals.is_empty() {
                #[cfg(any(feature = "std", not(feature = "liquid")))]
                return Err(VerificationError::NoWitness(opid));
''')])
bug('c18-debug-assert-check', 'C18', SUB=[('''            if !matching {
''', '''            debug_assert!(matching);
            if !matching && is_genesis {
''')])
bug('c19-skip-serde', 'C19', SUB=[('''    /// An optional witness for the closing of the operation input seals.
''', '''    /// An optional witness for the closing of the operation input seals.
    #[cfg_attr(feature = "serde", serde(default, skip_serializing))]
''')])
bug('c19-strict-skip', 'C19', SUB=[('''    /// Seals defined by an operation.
''', '''    /// Seals defined by an operation.
    #[strict_type(skip)]
''')])
bug('c19-order', 'C19', SUB=[('''    /// Seals defined by an operation.
    pub defined_seals: SmallOrdMap<u16, Seal::Definition>,
    /// An optional witness for the closing of the operation input seals.
    pub witness: Option<SealWitness<Seal>>,
''', '''    /// An optional witness for the closing of the operation input seals.
    pub witness: Option<SealWitness<Seal>>,
    /// Seals defined by an operation.
    pub defined_seals: SmallOrdMap<u16, Seal::Definition>,
''')])
bug('c19-default', 'C19', SUB=[('''    /// Seals defined by an operation.
''', '''    /// Seals defined by an operation.
    #[cfg_attr(feature = "serde", serde(default))]
''')])
bug('c20-nowitness', 'C20', CLONE='''        let witness = if self.defined_seals.is_empty() { None } else { self.witness.clone() };
        Self { operation: self.operation.clone(), defined_seals: self.defined_seals.clone(), witness }
''')
bug('c20-cid', 'C20', CLONE='''        let mut operation = self.operation.clone();
        operation.destructible_out = Default::default();
        for cell in &self.operation.destructible_out {
            let _ = operation.destructible_out.push(*cell);
            if operation.destructible_out.len() >= 0x7FFF {
                break;
            }
        }
        Self { operation, defined_seals: self.defined_seals.clone(), witness: self.witness.clone() }
''')
bug('c21-impl', 'C21', SUB=[('''impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}
''', '''impl<Seal: RgbSeal, C: ContractApi<Seal> + Sized + Send> ContractVerify<Seal> for C {}
''')])
bug('c21-hook', 'C21', SUB=[('''    /// # Nota bene:
    ///
    /// The method is called only for those operations which are not known''', '''    /// Whether seals have to be verified.
    fn skip_seals(&self) -> bool { false }

    /// # Nota bene:
    ///
    /// The method is called only for those operations which are not known'''), ('''            if !matching {
''', '''            if !matching && !self.skip_seals() {
''')])
bug('c22', 'C22', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            unsafe { core::ptr::copy_nonoverlapping(id.as_ptr(), shortened_id.as_mut_ptr(), 30) };
            AuthToken::from_byte_array(shortened_id)
''')
bug('c23-retry', 'C23', HEAD='''        while let Some(mut block) = loop {
            match reader.read_operation() {
                Ok(block) => break block,
                Err(e) if is_genesis => return Err(VerificationError::Stream(Box::new(e))),
                Err(_) => continue,
            }
        } {
''')
bug('c23-spin', 'C23', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            let mut no = 0usize;
            while no < block.operation.destructible_in.len() {
                let input = &block.operation.destructible_in[no];
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
                if closed_seals.len() <= 0x1000 {
                    no += 1;
                }
            }

''')
