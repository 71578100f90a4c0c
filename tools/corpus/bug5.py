"""Breaking variants, fifth series: arithmetic, casts, library functions with conditions, and states kept between operations."""
from base import B, SB, EVAL

VARIANTS = {}


def bug(n, want, **kw):
    kw['WANT'] = want
    VARIANTS[n] = kw


def rep(k, *subs):
    t = B[k]
    for a, b in subs:
        assert t.count(a) == 1, (k, a, t.count(a))
        t = t.replace(a, b)
    return t


def ev(*subs):
    t = EVAL
    for a, b in subs:
        assert t.count(a) >= 1, a
        t = t.replace(a, b)
    return t


GETPOS = '                    .get(*pos as usize)\n'
bug('c16-len-u8', ('C16',), SETS='''            let _count = u8::try_from(block.defined_seals.len()).expect("few seals");
''' + B['SETS'])
bug('c13-len-u8', ('C13',), SETS='''            if u8::try_from(block.operation.destructible_in.len()).is_err() {
                return Err(VerificationError::NoCodexCommitment);
            }
''' + B['SETS'])
bug('c06-len-as-u8', ('C06',), WIT=rep('WIT', ('!closed_seals.is_empty()', 'closed_seals.len() as u8 != 0')))
bug('c06-count-as-u8', ('C06',), CLOSED=B['CLOSED'] + '''            let inputs = block.operation.destructible_in.iter().fold(0u8, |n, _| n.wrapping_add(1));

''', WIT=rep('WIT', ('!closed_seals.is_empty()', 'inputs > 0')), KNOWN=B['KNOWN'])
bug('c11-seals-as-u8', ('C11',), SEALS=B['SEALS'].replace('!block.defined_seals.is_empty()', 'block.defined_seals.len() as u8 > 0'))
bug('c05-enumerate-u8', ('C05',), MATCH=rep('MATCH', (GETPOS, '                    .get(*pos as u8 as usize)\n')))
bug('c05-i8', ('C05',), MATCH=rep('MATCH', (GETPOS, '                    .get(*pos as i8 as usize)\n')))
bug('c05-i16-skip', ('C05',), MATCH=rep('MATCH', ('block.defined_seals.iter().all(|(pos, seal)| {', 'block.defined_seals.iter().all(|(pos, seal)| {\n                if (*pos as i16) < 0 {\n                    return true;\n                }')))
bug('c05-shift', ('C05',), MATCH=rep('MATCH', (GETPOS, '                    .get((*pos as usize) & 0xFF)\n')))
bug('c05-min', ('C05',), MATCH=rep('MATCH', (GETPOS, '                    .get((*pos as usize).min(block.operation.destructible_out.len() - 1))\n')))
bug('c05-saturating', ('C05',), MATCH=rep('MATCH', (GETPOS, '                    .get((*pos as usize).saturating_sub(1))\n')))
bug('c05-prefix', ('C05',), MATCH=rep('MATCH', ('cell.auth == seal.auth_token()', 'cell.auth.to_byte_array()[..8] == seal.auth_token().to_byte_array()[..8]')))
bug('c05-string', ('C05',), MATCH=rep('MATCH', ('cell.auth == seal.auth_token()', 'cell.auth.to_string().starts_with(&seal.auth_token().to_string()[..20])')))
bug('c05-ge', ('C05',), MATCH=rep('MATCH', ('cell.auth == seal.auth_token()', 'cell.auth >= seal.auth_token()')))
bug('c05-len-short', ('C05',), MATCH=rep('MATCH', ('if !matching {', 'if !matching && block.defined_seals.len() <= block.operation.destructible_out.len() {')))
bug('c05-cache', ('C05',), PRE=B['PRE'] + '        let mut checked = BTreeSet::<AuthToken>::new();\n', MATCH=rep('MATCH', ('''                    .is_some_and(|cell| cell.auth == seal.auth_token())
''', '''                    .is_some_and(|cell| checked.contains(&cell.auth) || cell.auth == seal.auth_token())
'''), ('            if !matching {', '            checked.extend(defined.iter().copied());\n            if !matching {')))
bug('c07-range', ('C07',), CLOSED=rep('CLOSED', ('''                    .remove(&input.addr)
''', '''                    .get(&input.addr)
                    .cloned()
''')).replace('''                closed_seals.push(seal);
            }
''', '''                closed_seals.push(seal);
            }
            seals.retain(|addr, _| !block.operation.destructible_in.iter().any(|input| input.addr == *addr));
'''))
bug('c07-split', ('C07',), FIN=rep('FIN', ('            seals.extend(seal_sources);\n', '''            seals.extend(seal_sources);
            if seals.len() > 1024 {
                let last = *seals.keys().next_back().unwrap();
                let rest = seals.split_off(&last);
                seals = rest;
            }
''')))
bug('c09-pop-first', ('C09',), FIN=rep('FIN', ('            seals.extend(seal_sources);\n', '''            seals.extend(seal_sources);
            while seals.len() > 4096 {
                seals.pop_first();
            }
''')))
bug('c09-index', ('C09',), SRC=rep('SRC', ('''                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))''', '''                .values()
                .enumerate()
                .filter_map(|(no, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, no as u16), seal)))''')))
bug('c09-pos-u8', ('C09',), SRC=rep('SRC', ('CellAddr::new(opid, *pos)', 'CellAddr::new(opid, *pos as u8 as u16)')))
bug('c09-last-witness', ('C09',), PRE=B['PRE'] + '        let mut last_id = None;\n', WIT=rep('WIT', ('''                let pub_id = witness.published.pub_id();
                let iter''', '''                let pub_id = *last_id.get_or_insert(witness.published.pub_id());
                let iter''')))
bug('c09-take-while', ('C09',), SRC=rep('SRC', ('''                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))''', '''                .map_while(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))''')))
bug('c09-known-src', ('C09',), FIN=rep('FIN', ('            seals.extend(seal_sources);\n', '''            if operation.is_some() || is_genesis || !closed_seals.is_empty() {
                seals.extend(seal_sources);
            }
''')))
bug('c03-memo', ('C03',), PRE=B['PRE'] + '        let mut verified_ids = BTreeSet::<Opid>::new();\n', KNOWN=rep('KNOWN', ('if self.is_known(opid) {', 'if self.is_known(opid) || !verified_ids.insert(opid) {')))
bug('c04-memo', ('C04',), PRE=B['PRE'] + '        let mut any_new = false;\n', KNOWN=rep('KNOWN', ('if self.is_known(opid) {', 'if !any_new && self.is_known(opid) {'), ('                // Verify the operation\n', '                any_new = true;\n')))
bug('c03-genesis-like', ('C03',), KNOWN=rep('KNOWN', ('if self.is_known(opid) {', 'if self.is_known(opid) || block.operation.call_id == 0 && block.operation.immutable_in.is_empty() && block.operation.destructible_in.is_empty() {')))
bug('c08-same-witness', ('C08',), PRE=B['PRE'] + '        let mut last = None;\n', WIT=B['WIT'].replace('''                witness
                    .verify_seals_closing(&closed_seals, msg.into())
                    .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
''', '''                if last != Some(witness.published.pub_id()) {
                    witness
                        .verify_seals_closing(&closed_seals, msg.into())
                        .map_err(|e| VerificationError::SealsNotClosed(witness.published.pub_id(), opid, e))?;
                }
                last = Some(witness.published.pub_id());
'''))
bug('c06-rev-pop', ('C06',), WIT=rep('WIT', ('''                let msg = opid.to_byte_array();
''', '''                let msg = opid.to_byte_array();
                closed_seals.dedup();
'''))) if False else None
bug('c06-set', ('C06', 'C08'), WIT=rep('WIT', ('verify_seals_closing(&closed_seals, msg.into())', 'verify_seals_closing(closed_seals.iter().skip_while(|seal| seals.values().any(|s| s == *seal)), msg.into())')))
bug('c02-cache-by-nonce', ('C02',), PRE=B['PRE'] + '        let mut ids = BTreeMap::<u64, Opid>::new();\n', OPID='''            let opid = *ids
                .entry(block.operation.call_id as u64)
                .or_insert_with(|| block.operation.opid());
''')
bug('c02-msg-opid-late', ('C02',), WIT=rep('WIT', ('let msg = opid.to_byte_array();', 'let mut msg = opid.to_byte_array();\n                msg[31] &= 0x7F;')))
bug('c01-known-genesis-reader', ('C01',), GEN=rep('GEN', ('if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {', 'if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() && !self.is_known(block.operation.opid()) {')))
bug('c01-sum', ('C01',), GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', 'block.operation.contract_id.to_byte_array().iter().map(|b| *b as u32).sum::<u32>() != codex_id.to_byte_array().iter().map(|b| *b as u32).sum::<u32>()')))
bug('c12-err-after', ('C12',), EVAL=EVAL.replace('''            .map_err(|e| VerificationError::Stream(Box::new(e)))?
''', '''            .or_else(|e| if is_genesis { Err(VerificationError::Stream(Box::new(e))) } else { Ok(None) })?
'''))
bug('c12-empty-ok', ('C13',), EVAL=EVAL.replace('        Ok(())\n', '''        if is_genesis {
            return Err(VerificationError::NoCodexCommitment);
        }
        Ok(())
'''))
bug('c10-seals-first', ('C10',), KNOWN='''            if !block.defined_seals.is_empty() {
                self.apply_seals(opid, block.defined_seals.clone());
            }

''' + B['KNOWN'], SEALS='        }\n\n')
bug('c11-clone-filter', ('C11',), SEALS=B['SEALS'].replace('self.apply_seals(opid, block.defined_seals);', 'let n = block.operation_outputs();\n') if False else B['SEALS'].replace('''                self.apply_seals(opid, block.defined_seals);
''', '''                let mut defs = block.defined_seals;
                if closed_seals.is_empty() && seals.len() > 65535 {
                    defs.clear();
                }
                self.apply_seals(opid, defs);
'''))
bug('c16-range', ('C16',), CLOSED=B['CLOSED'] + '''            if let (Some(first), Some(last)) = (block.operation.destructible_in.iter().next(), block.operation.destructible_in.iter().last()) {
                let _n = seals.range(first.addr..last.addr).count();
            }

''')
bug('c16-capacity', ('C16',), SRC='''            let mut slots = Vec::<u8>::new();
            slots.resize(16, 0);
            for pos in block.defined_seals.keys() {
                slots[(*pos % 16) as usize] += 1;
            }
''' + B['SRC'])
bug('c16-split-off', ('C16',), WIT=rep('WIT', ('let msg = opid.to_byte_array();', 'let msg = opid.to_byte_array();\n                let _tail = closed_seals.clone().split_off(1);')))
bug('c16-chunks', ('C16',), WIT=rep('WIT', ('let msg = opid.to_byte_array();', 'let msg = opid.to_byte_array();\n                let _n = closed_seals.chunks(block.defined_seals.len()).count();')))
bug('c16-slice-checked', ('C16',), MATCH=B['MATCH'] + '''            let tokens = amplify::confinement::TinyVec::from_slice_checked(&defined.iter().copied().collect::<Vec<_>>());
            let _ = tokens.len();

''')
bug('c16-str-slice', ('C16',), MATCH=rep('MATCH', ('(*pos, seal.to_string())', '(*pos, seal.to_string()[..64].to_owned())')))
bug('c16-shl', ('C16',), MATCH=B['MATCH'] + '''            let mask = block.defined_seals.keys().fold(0u64, |mask, pos| mask | 1u64 << *pos);
            let _ = mask.count_ones();

''')
bug('c14-cond', ('C14',), AUTH=SB['AUTH'].replace('&id[0..30]', '&id[(id[31] == 0xFF) as usize..][..30]'))
bug('c14-checksum', ('C14',), AUTH=SB['AUTH'].replace('AuthToken::from_byte_array(shortened_id)', 'shortened_id[29] = id[29] | 1;\n            AuthToken::from_byte_array(shortened_id)'))
bug('c15-self-ref', ('C15',), RES=SB['RES'].replace('WOutpoint::Extern(outpoint) => outpoint,', 'WOutpoint::Extern(outpoint) if outpoint.txid == witness_id => Outpoint::new(witness_id, 0u32),\n                WOutpoint::Extern(outpoint) => outpoint,'))
bug('c15-max-vout', ('C15',), TOSRC=SB['TOSRC'].replace('WOutpoint::Extern(outpoint) => outpoint,', 'WOutpoint::Extern(outpoint) if outpoint.vout.into_u32() == u32::MAX => return None,\n                WOutpoint::Extern(outpoint) => outpoint,'))
bug('c20-few', ('C20',), CLONE=B['CLONE'].replace('self.defined_seals.clone()', 'SmallOrdMap::from_iter_checked(self.defined_seals.iter().take(256).map(|(p, s)| (*p, s.clone())))'))
bug('c23-long', ('C23',), SETS='''            let mut n = block.defined_seals.len();
            while n != 1 {
                n = if n % 2 == 0 { n / 2 } else { 3 * n + 1 };
            }
''' + B['SETS'])
bug('c21-method-sized', ('C21',), SUB=[('-> Result<(), VerificationError<Seal>> {\n' + B['PRE'], '-> Result<(), VerificationError<Seal>>\n    where Self: Sized {\n' + B['PRE'])])
bug('c21-method-bound', ('C21',), SUB=[('-> Result<(), VerificationError<Seal>> {\n' + B['PRE'], '-> Result<(), VerificationError<Seal>>\n    where Self: Memory {\n' + B['PRE'])])
bug('c21-method-static', ('C21',), SUB=[('-> Result<(), VerificationError<Seal>> {\n' + B['PRE'], "-> Result<(), VerificationError<Seal>>\n    where Self: 'static {\n" + B['PRE'])])
bug('c21-trait-sized', ('C21',), SUB=[('pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {', 'pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> + Sized {'), ('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>', 'impl<Seal: RgbSeal, C: ContractApi<Seal>>')])
bug('c21-trait-static', ('C21',), SUB=[('pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {', "pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> + 'static {"), ('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized>', "impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized + 'static>")])
