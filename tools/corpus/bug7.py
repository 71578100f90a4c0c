"""Bugs in loops rewritten with queues, slices taken apart, peeking iterators and flags."""
from base import B, SB
from ok10 import ALL, rep
from ok11 import HEADC, STEP

VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


bug('closed-queue-last', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter().collect::<alloc::collections::VecDeque<_>>();\n            while inputs.len() > 1 {\n                let Some(input) = inputs.pop_front() else { break };\n' + STEP)
bug('closed-queue-break', 'C06', CLOSED=HEADC + '''            let mut inputs = block.operation.destructible_in.iter().collect::<alloc::collections::VecDeque<_>>();
            while let Some(input) = inputs.pop_front() {
                if inputs.is_empty() && block.witness.is_none() {
                    break;
                }
''' + STEP)
bug('closed-queue-twice', 'C06', CLOSED=HEADC + '''            let mut inputs = block.operation.destructible_in.iter().collect::<alloc::collections::VecDeque<_>>();
            while let Some(input) = inputs.pop_front() {
                let _ = inputs.pop_front();
''' + STEP)
bug('closed-queue-back', 'C06', CLOSED=HEADC + '''            let mut inputs = block.operation.destructible_in.iter().collect::<alloc::collections::VecDeque<_>>();
            while let Some(input) = inputs.pop_front() {
                inputs.pop_back();
''' + STEP)
bug('closed-split-last', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let Some((input, rest)) = inputs.split_first() {\n                inputs = rest;\n                if rest.is_empty() { break; }\n' + STEP)
bug('closed-split-skip', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let Some((input, rest)) = inputs.split_first() {\n                inputs = rest.get(1..).unwrap_or_default();\n' + STEP)
bug('closed-split-rest', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let Some((_, rest)) = inputs.split_first() {\n                inputs = rest;\n                let Some(input) = rest.first() else { break };\n' + STEP)
bug('closed-slice-two', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let [input, _, rest @ ..] = inputs {\n                inputs = rest;\n' + STEP)
bug('closed-slice-one-more', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let [input, rest @ ..] = inputs {\n                if rest.is_empty() && !is_genesis { break; }\n                inputs = rest;\n' + STEP)
bug('closed-slice-last', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.as_slice();\n            while let [input, rest @ .., _last] = inputs {\n                inputs = rest;\n' + STEP)
bug('closed-peek-last', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter().peekable();\n            while let Some(input) = inputs.next() {\n                if inputs.peek().is_none() { break; }\n' + STEP)
bug('closed-peek-skip', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter().peekable();\n            while inputs.next().is_some() {\n                let Some(input) = inputs.peek() else { break };\n' + STEP)
bug('closed-peek-none', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter().peekable();\n            while inputs.peek().is_some() && inputs.len() != 2 {\n                let Some(input) = inputs.next() else { break };\n' + STEP)
bug('closed-loop-return', 'C06', CLOSED=HEADC + '            let mut inputs = block.operation.destructible_in.iter();\n            loop {\n                let input = match inputs.next() {\n                    Some(input) if inputs.len() > 0 || block.witness.is_some() => input,\n                    _ => break,\n                };\n' + STEP)
bug('closed-zip-bound', 'C06', CLOSED=HEADC + '            for (input, _) in block.operation.destructible_in.iter().zip(0u32..3) {\n' + STEP)
bug('closed-zip-bound2', 'C06', CLOSED=HEADC + '            for (input, no) in block.operation.destructible_in.iter().zip(0u32..) {\n                if no > 254 { break; }\n' + STEP)
bug('closed-enumerate-odd', 'C06', CLOSED=HEADC + '            for (no, input) in block.operation.destructible_in.iter().enumerate() {\n                if no % 2 == 1 { continue; }\n' + STEP)
bug('closed-index-two', 'C06', CLOSED=HEADC + '''            let mut no = 0usize;
            while let Some(input) = block.operation.destructible_in.get(no) {
                no += 2;
''' + STEP)
bug('closed-index-one', 'C06', CLOSED=HEADC + '''            let mut no = 1usize;
            while let Some(input) = block.operation.destructible_in.get(no) {
                no += 1;
''' + STEP)
bug('closed-first-missing-last', 'C06', CLOSED=HEADC + '''            let mut missing = None;
            for input in &block.operation.destructible_in {
                match seals.remove(&input.addr) {
                    Some(seal) => { missing = None; closed_seals.push(seal) },
                    None => missing = Some(input.addr),
                }
            }
            if let Some(addr) = missing {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
bug('closed-missing-break', 'C06', CLOSED=HEADC + '''            let mut missing = None;
            for input in &block.operation.destructible_in {
                match seals.remove(&input.addr) {
                    Some(seal) => closed_seals.push(seal),
                    None => {
                        missing = Some(input.addr);
                        break;
                    }
                }
            }
            if let (Some(addr), true) = (missing, closed_seals.is_empty()) {
                return Err(VerificationError::SealUnknown(addr));
            }

''')
bug('closed-from-fn-flat', 'C06', CLOSED='''            let mut inputs = block.operation.destructible_in.iter();
            let closed_seals = core::iter::from_fn(|| {
                let input = inputs.next()?;
                seals.remove(&input.addr)
            })
            .collect::<Vec<Seal>>();

''')
bug('closed-fn-take', 'C06', CLOSED='            let closed_seals = close(&mut seals, block.operation.destructible_in.iter().map(|input| input.addr))?;\n\n', ITEMS='''
fn close<S: RgbSeal>(
    seals: &mut BTreeMap<CellAddr, S>,
    addrs: impl ExactSizeIterator<Item = CellAddr>,
) -> Result<Vec<S>, VerificationError<S>> {
    let mut closed = vec![];
    let max = addrs.len() & 0xFF;
    for addr in addrs.take(max) {
        closed.push(seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?);
    }
    Ok(closed)
}
''')
bug('closed-dedup', 'C06', CLOSED=HEADC + '''            let mut addrs = block.operation.destructible_in.iter().map(|input| input.addr).collect::<Vec<_>>();
            addrs.dedup_by_key(|addr| addr.opid);
            for addr in addrs {
                let Some(seal) = seals.remove(&addr) else {
                    return Err(VerificationError::SealUnknown(addr));
                };
                closed_seals.push(seal);
            }

''')
# --- definitions
bug('def-rev-skip', 'C05', MATCH=rep('MATCH', ('block.defined_seals.iter().all(', 'block.defined_seals.iter().rev().skip(1).all(')))
bug('def-pop-first-once', 'C05', MATCH=rep('MATCH', (ALL, '''            let mut left = block.defined_seals.iter().collect::<BTreeMap<_, _>>();
            let mut matching = true;
            if let Some((pos, seal)) = left.pop_first() {
                matching &= block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }''')))
bug('def-pop-first-last', 'C05', MATCH=rep('MATCH', (ALL, '''            let mut left = block.defined_seals.iter().collect::<BTreeMap<_, _>>();
            let mut matching = true;
            while let Some((pos, seal)) = left.pop_first() {
                matching = block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }''')))
bug('def-pop-first-or', 'C05', MATCH=rep('MATCH', (ALL, '''            let mut left = block.defined_seals.iter().collect::<BTreeMap<_, _>>();
            let mut matching = left.is_empty();
            while let Some((pos, seal)) = left.pop_first() {
                matching |= block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }''')))
bug('def-pop-first-both', 'C05', MATCH=rep('MATCH', (ALL, '''            let mut left = block.defined_seals.iter().collect::<BTreeMap<_, _>>();
            let mut matching = true;
            while let Some((pos, seal)) = left.pop_first() {
                left.pop_last();
                matching &= block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            }''')))
bug('def-while-not', 'C05', MATCH=rep('MATCH', (ALL, '''            let mut defs = block.defined_seals.iter();
            let mut matching = false;
            while let (false, Some((pos, seal))) = (matching, defs.next()) {
                matching = match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) => cell.auth == seal.auth_token(),
                    None => false,
                };
            }
            matching |= block.defined_seals.is_empty();''')))
bug('def-while-order', 'C05', MATCH=rep('MATCH', (ALL, '''            let mut defs = block.defined_seals.iter();
            let mut matching = true;
            while let (Some((pos, seal)), true) = (defs.next(), defs.len() > 0) {
                matching &= match block.operation.destructible_out.get(*pos as usize) {
                    Some(cell) => cell.auth == seal.auth_token(),
                    None => false,
                };
            }''')))
bug('def-last-range', 'C05', MATCH=rep('MATCH', (ALL, '''            let in_range = block.defined_seals.keys().next_back().is_some_and(|pos| (*pos as usize) < block.operation.destructible_out.len());
            let mut matching = in_range || block.defined_seals.is_empty();
            if in_range {
                if let Some((pos, seal)) = block.defined_seals.iter().next_back() {
                    if block.operation.destructible_out[*pos as usize].auth != seal.auth_token() {
                        matching = false;
                    }
                }
            }''')))
bug('def-skip-nth-off', 'C05', MATCH=rep('MATCH', ('.get(*pos as usize)', '.iter()\n                    .nth(usize::from(*pos / 2))')))
bug('def-skip-next-u8', 'C05', MATCH=rep('MATCH', ('.get(*pos as usize)', '.iter()\n                    .skip(usize::from(*pos as u8))\n                    .next()')))
bug('def-rev-nth', 'C05', MATCH=rep('MATCH', ('.get(*pos as usize)', '.iter()\n                    .rev().nth(usize::from(*pos))')))
bug('def-none-none', 'C05', MATCH=rep('MATCH', (ALL, '''            let mismatch = block.defined_seals.iter().find(|(pos, seal)| {
                let cell = block.operation.destructible_out.get(**pos as usize);
                cell.is_some_and(|cell| cell.auth != seal.auth_token())
            });
            let matching = mismatch.is_none();''')))
bug('def-partition-good', 'C05', MATCH=rep('MATCH', (ALL, '''            let (good, bad) = block
                .defined_seals
                .iter()
                .partition::<Vec<_>, _>(|(pos, seal)| {
                    block
                        .operation
                        .destructible_out
                        .get(**pos as usize)
                        .is_some_and(|cell| cell.auth == seal.auth_token())
                });
            let matching = bad.is_empty() || !good.is_empty();''')))
bug('def-zip-cells', 'C05', MATCH=rep('MATCH', (ALL, '''            let matching = block.defined_seals.values().zip(block.operation.destructible_out.iter()).all(|(seal, cell)| cell.auth == seal.auth_token());''')))
bug('def-fn-continue', 'C05', MATCH=rep('MATCH', (ALL, '            let matching = definitions_match(&block);')), ITEMS='''
fn definitions_match<S: RgbSeal>(block: &OperationSeals<S>) -> bool {
    let cells = &block.operation.destructible_out;
    for (pos, seal) in &block.defined_seals {
        match cells.get(usize::from(*pos)) {
            Some(cell) if cell.auth == seal.auth_token() => {}
            None => continue,
            _ => return false,
        }
    }
    true
}
''')
bug('def-fn-true', 'C05', MATCH=rep('MATCH', (ALL, '            let matching = definitions_match(&block);')), ITEMS='''
fn definitions_match<S: RgbSeal>(block: &OperationSeals<S>) -> bool {
    let cells = &block.operation.destructible_out;
    for (pos, seal) in &block.defined_seals {
        match cells.get(usize::from(*pos)) {
            Some(cell) if cell.auth == seal.auth_token() => return true,
            _ => return false,
        }
    }
    true
}
''')
# --- sources
bug('src-rev-skip', 'C09', SRC=rep('SRC', ('.iter()\n                .filter_map', '.iter()\n                .rev()\n                .skip(1)\n                .filter_map')))
bug('src-stop', 'C09', SRC='''            let mut seal_sources = BTreeSet::new();
            for (pos, seal) in block.defined_seals.iter().rev() {
                if let Some(src) = seal.to_src() {
                    seal_sources.insert((CellAddr::new(opid, *pos), src));
                } else if block.witness.is_none() {
                    break;
                }
            }

''')
bug('src-last-only', 'C09', SRC='''            let mut seal_sources = BTreeSet::new();
            let mut defs = block.defined_seals.iter().peekable();
            while let Some((pos, seal)) = defs.next() {
                if let (Some(src), true) = (seal.to_src(), defs.peek().is_none()) {
                    seal_sources.insert((CellAddr::new(opid, *pos), src));
                }
            }

''')
bug('src-enum-pos', 'C09', SRC='''            let mut seal_sources = BTreeSet::new();
            for (no, (_pos, seal)) in block.defined_seals.iter().enumerate() {
                if let Some(src) = seal.to_src() {
                    seal_sources.insert((CellAddr::new(opid, no as u16), src));
                }
            }

''')
bug('src-take-while', 'C09', SRC=rep('SRC', ('.filter_map(|(pos, seal)|', '.take_while(|(_, seal)| seal.to_src().is_some())\n                .filter_map(|(pos, seal)|')))
bug('src-per-def-all', 'C09', SRC='            let pub_id = block.witness.as_ref().map(|witness| witness.published.pub_id());\n            let seal_sources = block.defined_seals.iter().map_while(|(pos, seal)| {\n                let seal = seal.to_src().or_else(|| pub_id.map(|pub_id| seal.resolve(pub_id)))?;\n                Some((CellAddr::new(opid, *pos), seal))\n            }).collect::<Vec<_>>();\n\n', WIT=B['WIT'][:B['WIT'].index('                //  Each')] + '                self.apply_witness(opid, witness);\n' + B['WIT'][B['WIT'].index('            } else if'):])
# --- the order and flags
bug('gen-height-two', 'C11', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut height = 0u64;')), GEN=rep('GEN', ('if is_genesis {', 'let is_genesis = height == 0;\n            height = height.saturating_add(1);\n            if is_genesis {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {', 'if let (true, Some(operation)) = (height > 2, operation) {')))
bug('gen-height-wrap', 'C02', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut height = 0u8;')), GEN=rep('GEN', ('if is_genesis {', 'let is_genesis = height == 0;\n            height = height.wrapping_add(1);\n            if is_genesis {')), FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {', 'if let (false, Some(operation)) = (is_genesis, operation) {')))
bug('gen-option-late', 'C01', PRE=rep('PRE', ('let codex_id = self.codex().codex_id();', 'let mut codex_id = Some(self.codex().codex_id());'), ('        let mut is_genesis = true;\n', '')), GEN='''            let is_genesis = codex_id.is_some();
            if let Some(codex_id) = codex_id.filter(|_| !block.operation.destructible_out.is_empty()) {
                if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {
                    return Err(VerificationError::NoCodexCommitment);
                }
                block.operation.contract_id = contract_id;
            }
            codex_id = None;
''', FIN=rep('FIN', ('if is_genesis {\n                is_genesis = false\n            } else if let Some(operation) = operation {', 'if let Some(operation) = operation.filter(|_| !is_genesis) {')))
bug('gen-eq-take', 'C01', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '!block.operation.contract_id.to_byte_array().iter().take(31).eq(codex_id.to_byte_array().iter().take(31))')))
bug('gen-zip-any-rev', 'C01', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', 'block.operation.contract_id.to_byte_array().iter().zip(codex_id.to_byte_array().iter().rev()).any(|(a, b)| a != b)')))
bug('gen-loop-31', 'C01', GEN=rep('GEN', ('if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '''let (a, b) = (block.operation.contract_id.to_byte_array(), codex_id.to_byte_array());
                let mut same = true;
                for no in 0..31 {
                    same &= a[no] == b[no];
                }
                if !same''')))
bug('gen-loop-last', 'C01', GEN=rep('GEN', ('if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '''let (a, b) = (block.operation.contract_id.to_byte_array(), codex_id.to_byte_array());
                let mut same = true;
                for no in 0..32 {
                    same = a[no] == b[no];
                }
                if !same''')))
bug('gen-starts-with', 'C01', GEN=rep('GEN', ('block.operation.contract_id.to_byte_array() != codex_id.to_byte_array()', '!block.operation.contract_id.to_byte_array().starts_with(&codex_id.to_byte_array()[..16])')))
bug('seals-defs-genesis', 'C11', SEALS='''            let defs = Some(block.defined_seals).filter(|defs| defs.len() > 1);
            if let Some(defs) = defs {
                self.apply_seals(opid, defs);
            }
        }

''')
bug('seals-sticky', 'C11', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut is_genesis = true;\n        let mut seen = false;')), SEALS='''            let had = core::mem::replace(&mut seen, block.defined_seals.is_empty());
            if !block.defined_seals.is_empty() && !had {
                self.apply_seals(opid, block.defined_seals);
            }
        }

''')
bug('wit-sticky', 'C06', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut is_genesis = true;\n        let mut witnessed = false;')), WIT=rep('WIT', ('} else if !closed_seals.is_empty() {', '} else if !closed_seals.is_empty() && !witnessed {'), ('self.apply_witness(opid, witness);', 'self.apply_witness(opid, witness);\n                witnessed = true;')))
bug('known-sticky', 'C03', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut is_genesis = true;\n        let mut known = false;')), KNOWN=rep('KNOWN', ('if self.is_known(opid)', 'known |= self.is_known(opid);\n            let operation = if known')) if B['KNOWN'].count('let operation = if self.is_known(opid)') == 0 else B['KNOWN'].replace('let operation = if self.is_known(opid)', 'known |= self.is_known(opid);\n            let operation = if known'))
bug('known-prev', 'C03', PRE=rep('PRE', ('let mut is_genesis = true;', 'let mut is_genesis = true;\n        let mut last = None;')), KNOWN=B['KNOWN'].replace('let operation = if self.is_known(opid)', 'let operation = if self.is_known(opid) || last == Some(opid)'), FIN=B['FIN'].replace('seals.extend(seal_sources);', 'seals.extend(seal_sources);\n            last = block.operation.destructible_in.first().map(|input| input.addr.opid);') if False else B['FIN'].replace('seals.extend(seal_sources);', 'seals.extend(seal_sources);\n            last = Some(Opid::from(contract_id.to_byte_array()));'))
# --- the seals
bug('auth-zip-rev', 'C14', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            for (dst, src) in shortened_id.iter_mut().rev().zip(id) {
                *dst = src;
            }
            AuthToken::from_byte_array(shortened_id)

''')
bug('auth-split-tail', 'C14', AUTH='''            let id = self.commit_id().to_byte_array();
            let (_head, tail) = id.split_at(2);
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(tail);
            AuthToken::from_byte_array(shortened_id)

''')
bug('auth-truncate', 'C14', AUTH='''            let mut id = self.commit_id().to_byte_array().to_vec();
            id.rotate_left(1);
            id.truncate(30);
            let mut shortened_id = [0u8; 30];
            shortened_id.copy_from_slice(&id);
            AuthToken::from_byte_array(shortened_id)

''')
bug('auth-take-short', 'C14', AUTH='''            let id = self.commit_id().to_byte_array();
            let mut shortened_id = [0u8; 30];
            let len = shortened_id.len() - 1;
            shortened_id[..len].clone_from_slice(&id[..len]);
            AuthToken::from_byte_array(shortened_id)

''')
bug('res-mut-swap', 'C15', RES='''            let mut primary = Outpoint::new(witness_id, bp::Vout::from_u32(0));
            if let WOutpoint::Extern(outpoint) = self.primary {
                primary = outpoint;
            } else if let WOutpoint::Wout(wout) = self.primary {
                primary = Outpoint::new(witness_id, if wout.into_u32() == 0 { bp::Vout::from_u32(1) } else { wout });
            }
            TxoSeal { primary, secondary: self.secondary }

''')
