"""Bugs of two sites which look fine alone: state hoisted out of the loop, delayed or cached, helpers shared by two callers."""
from base import B, SB
from ok10 import ALL, rep
from ok11 import HEADC
from ok12 import match

VARIANTS = {}


def bug(n, want, **kw):
    kw['WANT'] = want.split(',')
    VARIANTS[n] = kw


PUB = '<<Seal as single_use_seals::SingleUseSeal>::PubWitness as PublishedWitness<Seal>>::PubId'


def pre(*t):
    return B['PRE'] + ''.join('        %s\n' % x for x in t)


CL = B['CLOSED'].replace('            let mut closed_seals = Vec::<Seal>::new();\n', '')
bug('hoist-closed', 'C06,C08,C13', PRE=pre('let mut closed_seals = Vec::<Seal>::new();'), CLOSED=CL, WIT=rep('WIT', ('                self.apply_witness(opid, witness);\n', '                self.apply_witness(opid, witness);\n                closed_seals.clear();\n')))
bug('hoist-closed-late', 'C13,C08', PRE=pre('let mut closed_seals = Vec::<Seal>::new();'), CLOSED=CL, FIN=rep('FIN', ('self.apply_operation(operation);', 'self.apply_operation(operation);\n                closed_seals.clear();')))
bug('hoist-closed-truncate', 'C13,C06,C08', PRE=pre('let mut closed_seals = Vec::<Seal>::new();'), CLOSED='            closed_seals.truncate(block.operation.destructible_in.len());\n' + CL)
bug('delay-sources', 'C09', PRE=pre('let mut pending = BTreeSet::<(CellAddr, Seal)>::new();'), FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(core::mem::replace(&mut pending, seal_sources));')))
bug('delay-removal', 'C07', PRE=pre('let mut spent = Vec::<CellAddr>::new();'), CLOSED=rep('CLOSED', ('.remove(&input.addr)', '.get(&input.addr)\n                    .cloned()'), ('closed_seals.push(seal);', 'closed_seals.push(seal);\n                spent.push(input.addr);')),
    FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(seal_sources);\n            if spent.len() > 1 {\n                for addr in spent.drain(..) {\n                    seals.remove(&addr);\n                }\n            }')))
bug('prev-witness', 'C09', PRE=pre('let mut last = None::<%s>;' % PUB), WIT=rep('WIT', ('                self.apply_witness(opid, witness);\n', '                self.apply_witness(opid, witness);\n                last = Some(pub_id);\n'), ('            } else if', '            } else if let (Some(pub_id), true) = (last, closed_seals.is_empty()) {\n                seal_sources.extend(block.defined_seals.iter().filter(|(_, seal)| seal.to_src().is_none()).map(|(pos, seal)| (CellAddr::new(opid, *pos), seal.resolve(pub_id))));\n            } else if')))
bug('first-witness-id', 'C09', PRE=pre('let mut ids = None::<%s>;' % PUB), WIT=rep('WIT', ('let pub_id = witness.published.pub_id();\n', 'let pub_id = *ids.get_or_insert(witness.published.pub_id());\n')))
bug('skip-same-witness', 'C08', PRE=pre('let mut verified = BTreeSet::<%s>::new();' % PUB), WIT=rep('WIT', ('                witness\n                    .verify', '                if verified.insert(witness.published.pub_id()) {\n                witness\n                    .verify'), ('opid, e))?;\n', 'opid, e))?;\n                }\n')))
bug('skip-same-op', 'C08,C11', PRE=pre('let mut seen = BTreeSet::<Opid>::new();'), OPID=B['OPID'] + '            if !seen.insert(opid) {\n                continue;\n            }\n')
bug('memo-known', 'C04', PRE=pre('let mut memo = BTreeMap::<Opid, bool>::new();'), KNOWN=rep('KNOWN', ('self.is_known(opid)', '*memo.entry(opid).or_insert_with(|| self.is_known(opid))')))
bug('memo-new', 'C04,C03', PRE=pre('let mut fresh = None::<bool>;'), KNOWN=rep('KNOWN', ('self.is_known(opid)', '!*fresh.get_or_insert(!self.is_known(opid))')))
bug('known-until-new', 'C03,C04', PRE=pre('let mut known = true;'), KNOWN=rep('KNOWN', ('let operation = if self.is_known(opid)', 'known = known && self.is_known(opid);\n            let operation = if known')))
bug('genesis-until-new', 'C02,C03', FIN=rep('FIN', ('            if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {\n                self.apply_operation(operation);\n            }\n', '''            if let Some(operation) = operation {
                if !is_genesis {
                    self.apply_operation(operation);
                }
                is_genesis = false;
            }
''')))
bug('genesis-with-witness', 'C02', FIN=rep('FIN', ('is_genesis = false', 'is_genesis = block.defined_seals.is_empty() && seals.is_empty()')))
bug('id-of-first', 'C03', PRE=rep('PRE', ('let contract_id = self.contract_id();', 'let mut contract_id = self.contract_id();')), OPID='            contract_id = block.operation.contract_id;\n' + B['OPID'])
bug('id-learnt', 'C03', PRE=pre('let mut current = contract_id;'), OPID=B['OPID'] + '            if self.is_known(opid) {\n                current = block.operation.contract_id;\n            }\n', KNOWN=rep('KNOWN', ('.verify(contract_id,', '.verify(current,')))
bug('helper-addr', 'C09,C06', SRC=rep('SRC', ('CellAddr::new(opid, *pos)', 'addr(opid, *pos)')), WIT=rep('WIT', ('CellAddr::new(opid, *pos)', 'addr(opid, *pos)')), ITEMS='''
fn addr(opid: Opid, pos: u16) -> CellAddr { CellAddr::new(opid, pos & 0x7FFF) }
''')
bug('helper-addr-input', 'C06,C07', CLOSED=rep('CLOSED', ('.remove(&input.addr)', '.remove(&norm(input.addr))')), SRC=rep('SRC', ('CellAddr::new(opid, *pos)', 'norm(CellAddr::new(opid, *pos))')), WIT=rep('WIT', ('CellAddr::new(opid, *pos)', 'norm(CellAddr::new(opid, *pos))')), ITEMS='''
fn norm(addr: CellAddr) -> CellAddr { CellAddr::new(addr.opid, addr.pos % 1024) }
''')
bug('key-pos', 'C06,C07', PRE=rep('PRE', ('BTreeMap::<CellAddr, Seal>::new()', 'BTreeMap::<([u8; 8], u16), Seal>::new()')), CLOSED=rep('CLOSED', ('.remove(&input.addr)', '.remove(&key(&input.addr))')),
    FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(seal_sources.into_iter().map(|(addr, seal)| (key(&addr), seal)));')), ITEMS='''
fn key(addr: &CellAddr) -> ([u8; 8], u16) {
    let mut head = [0u8; 8];
    head.copy_from_slice(&addr.opid.to_byte_array()[..8]);
    (head, addr.pos)
}
''')
bug('msg-cache', 'C02,C08', PRE=pre('let mut msg = None;'), WIT=rep('WIT', ('let msg = opid.to_byte_array();', 'let msg = *msg.get_or_insert(opid.to_byte_array());')))
bug('opid-prev', 'C02', PRE=pre('let mut prev = None;'), WIT=rep('WIT', ('self.apply_witness(opid, witness);', 'self.apply_witness(prev.unwrap_or(opid), witness);')), FIN=B['FIN'] + '            prev = Some(opid);\n')
bug('defs-carried', 'C11', PRE=pre('let mut carried = SmallOrdMap::<u16, Seal::Definition>::new();'), SEALS='''            if !block.defined_seals.is_empty() {
                carried = block.defined_seals;
            }
            if !carried.is_empty() {
                self.apply_seals(opid, carried.clone());
            }
        }

''')
bug('mismatch-once', 'C05', PRE=pre('let mut warned = false;'), MATCH=rep('MATCH', ('if !matching {', 'if !core::mem::replace(&mut warned, !matching) && !matching && !is_genesis {')))
bug('unknown-budget', 'C06', PRE=pre('let mut budget = 3u8;'), CLOSED=rep('CLOSED', ('''                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
''', '''                match seals.remove(&input.addr) {
                    Some(seal) => closed_seals.push(seal),
                    None if budget > 0 && block.operation.destructible_in.len() > 4 => budget -= 1,
                    None => return Err(VerificationError::SealUnknown(input.addr)),
                }
''')))
bug('nowit-later', 'C06', PRE=pre('let mut unwitnessed = None;'), WIT=rep('WIT', ('return Err(VerificationError::NoWitness(opid));', 'unwitnessed.get_or_insert(opid);')), SEALS=B['SEALS'] + '        if let Some(opid) = unwitnessed {\n            return Err(VerificationError::NoWitness(opid));\n        }\n')
bug('err-later', 'C10,C12', PRE=pre('let mut failed = None;'), KNOWN=rep('KNOWN', ('''                let verified = self
                    .codex()
                    .verify(contract_id, block.operation, self.memory(), self.repo())?;
                Some(verified)
''', '''                match self.codex().verify(contract_id, block.operation, self.memory(), self.repo()) {
                    Ok(verified) => Some(verified),
                    Err(e) => {
                        failed = Some(e);
                        None
                    }
                }
''')), SEALS=B['SEALS'] + '        if let Some(e) = failed {\n            return Err(e.into());\n        }\n')
