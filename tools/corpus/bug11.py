"""Bugs in effects of closures, lazy adaptors, sorting, shared helpers and replaced values."""
from base import B, SB
from ok10 import ALL, rep
from ok11 import HEADC, STEP
from ok12 import match

VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


bug('retain-inserts', 'C06', FIN=B['FIN'] + '''            let mut extra = seals.clone();
            closed_seals.retain(|seal| {
                extra.insert(CellAddr::new(opid, 0xFFFF), seal.clone());
                true
            });
            seals = extra;

''')
bug('retain-registry', 'C09', FIN=rep('FIN', ('seals.extend(seal_sources);', 'seals.extend(seal_sources);\n            seals.retain(|addr, _| addr.pos != 0xFFFE);')))
bug('closed-sort', 'C07', CLOSED=HEADC + '''            let mut kept = Vec::new();
            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                kept.push((input.addr, seal.clone()));
                closed_seals.push(seal);
            }
            kept.sort_by_key(|(addr, seal)| {
                if addr.pos > 3 {
                    seals.insert(*addr, seal.clone());
                }
                addr.pos
            });

''')
bug('closed-dedup', 'C06', CLOSED=B['CLOSED'] + '            closed_seals.dedup();\n')
bug('closed-truncate', 'C06', CLOSED=B['CLOSED'] + '            closed_seals.truncate(255);\n')
bug('closed-drain', 'C06', CLOSED=B['CLOSED'] + '            if closed_seals.len() > 2 {\n                closed_seals.drain(2..);\n            }\n')
bug('closed-pop', 'C06', CLOSED=B['CLOSED'] + '            if block.witness.is_none() {\n                closed_seals.pop();\n            }\n')
bug('closed-swap-remove', 'C06', CLOSED=B['CLOSED'] + '            if closed_seals.len() == 3 {\n                closed_seals.swap_remove(1);\n            }\n')
bug('closed-split-off', 'C06', CLOSED=B['CLOSED'] + '            let _ = if closed_seals.len() > 9 { closed_seals.split_off(9) } else { Vec::new() };\n')
bug('closed-resize', 'C06', CLOSED=B['CLOSED'] + '            if let Some(first) = closed_seals.first().cloned() {\n                closed_seals.fill(first);\n            }\n')
bug('closed-lazy', 'C07', CLOSED='''            let mut spent = Vec::new();
            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| {
                    spent.push(input.addr);
                    seals.get(&input.addr).cloned().ok_or(VerificationError::SealUnknown(input.addr))
                })
                .collect::<Result<Vec<Seal>, _>>()?;
            let _ = spent.iter().map(|addr| seals.remove(addr));

''')
bug('closed-lazy-any', 'C07', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.get(&input.addr).cloned().ok_or(VerificationError::SealUnknown(input.addr)))
                .collect::<Result<Vec<Seal>, _>>()?;
            let _ = block.operation.destructible_in.iter().any(|input| seals.remove(&input.addr).is_some());

''')
bug('closed-lazy-find', 'C07', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.get(&input.addr).cloned().ok_or(VerificationError::SealUnknown(input.addr)))
                .collect::<Result<Vec<Seal>, _>>()?;
            block.operation.destructible_in.iter().map(|input| seals.remove(&input.addr)).find(|seal| seal.is_some());

''')
bug('closed-remove-after', 'C07', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.get(&input.addr).cloned().ok_or(VerificationError::SealUnknown(input.addr)))
                .collect::<Result<Vec<Seal>, _>>()?;
            for input in &block.operation.destructible_in {
                seals.remove(&input.addr);
            }

''')
bug('closed-take-while', 'C06', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map_while(|input| seals.remove(&input.addr))
                .collect::<Vec<Seal>>();

''')
bug('closed-flatten-res', 'C06', CLOSED='''            let closed_seals = block
                .operation
                .destructible_in
                .iter()
                .map(|input| seals.remove(&input.addr).ok_or(VerificationError::<Seal>::SealUnknown(input.addr)))
                .flatten()
                .collect::<Vec<Seal>>();

''')
bug('closed-partition', 'C06', CLOSED='''            let mut known = Vec::new();
            let mut unknown = Vec::new();
            for input in &block.operation.destructible_in {
                if seals.contains_key(&input.addr) { known.push(input.addr) } else { unknown.push(input.addr) }
            }
            if let (Some(addr), true) = (unknown.last(), known.is_empty()) {
                return Err(VerificationError::SealUnknown(*addr));
            }
            let closed_seals = known.iter().filter_map(|addr| seals.remove(addr)).collect::<Vec<Seal>>();

''')
bug('closed-clone-registry', 'C07', CLOSED=HEADC + '            let mut seals = seals.clone();\n' + B['CLOSED'].split('\n', 2)[2])
bug('closed-scope', 'C07', CLOSED=HEADC + '''            let mut left = seals.clone();
            for input in &block.operation.destructible_in {
                let seal = left
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }
            if block.defined_seals.len() < 4 {
                seals = left;
            }

''')
bug('def-inspect', 'C05', MATCH=match('''            let mut matching = true;
            block
                .defined_seals
                .iter()
                .inspect(|(pos, seal)| {
                    matching &= block
                        .operation
                        .destructible_out
                        .get(**pos as usize)
                        .is_some_and(|cell| cell.auth == seal.auth_token());
                })
                .take(64)
                .for_each(drop);'''))
bug('def-lazy', 'C05', MATCH=match('''            let mut matching = true;
            let _ = block.defined_seals.iter().map(|(pos, seal)| {
                matching &= block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            });'''))
bug('def-last-wins', 'C05', MATCH=match('''            let mut matching = true;
            block.defined_seals.iter().for_each(|(pos, seal)| {
                matching = block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token());
            });'''))
bug('def-max-by', 'C05', MATCH=match('''            let matching = block
                .defined_seals
                .iter()
                .max_by_key(|(_, seal)| seal.auth_token())
                .is_none_or(|(pos, seal)| {
                    block
                        .operation
                        .destructible_out
                        .get(*pos as usize)
                        .is_some_and(|cell| cell.auth == seal.auth_token())
                });'''))
bug('def-last-first', 'C05', MATCH=match('''            let good = |(pos, seal): (&u16, &Seal::Definition)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            };
            let matching = block.defined_seals.iter().next().is_none_or(good) && block.defined_seals.iter().last().is_none_or(good);'''))
bug('def-sorted', 'C05', MATCH=match('''            let mut cells = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
            cells.sort();
            let mut tokens = block.defined_seals.values().map(|seal| seal.auth_token()).collect::<Vec<_>>();
            tokens.sort();
            let matching = tokens.iter().all(|token| cells.binary_search(token).is_ok());'''))
bug('def-sorted-zip', 'C05', MATCH=match('''            let mut cells = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
            cells.sort();
            let matching = block.defined_seals.iter().all(|(pos, seal)| cells.get(*pos as usize) == Some(&seal.auth_token()));'''))
bug('def-reversed', 'C05', MATCH=match('''            let mut cells = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
            cells.reverse();
            let matching = block.defined_seals.iter().all(|(pos, seal)| cells.get(*pos as usize) == Some(&seal.auth_token()));'''))
bug('def-map-by-token', 'C05', MATCH=match('''            let by_token = block.operation.destructible_out.iter().enumerate().map(|(no, cell)| (cell.auth, no)).collect::<BTreeMap<_, _>>();
            let matching = block.defined_seals.values().all(|seal| by_token.contains_key(&seal.auth_token()));'''))
bug('def-map-by-token-pos', 'C13', MATCH=match('''            let by_token = block.operation.destructible_out.iter().enumerate().map(|(no, cell)| (cell.auth, no)).collect::<BTreeMap<_, _>>();
            let matching = block.defined_seals.iter().all(|(pos, seal)| by_token.get(&seal.auth_token()) == Some(&(*pos as usize)));'''))
bug('def-chunks', 'C05', MATCH=match('''            let matching = block.defined_seals.len() <= block.operation.destructible_out.len()
                && block
                    .defined_seals
                    .iter()
                    .zip(block.operation.destructible_out.iter())
                    .all(|((_, seal), cell)| cell.auth == seal.auth_token());'''))
bug('src-lazy', 'C09', SRC='''            let mut seal_sources: BTreeSet<_> = BTreeSet::new();
            let _ = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .map(|src| seal_sources.insert(src));

''')
bug('src-any', 'C09', SRC='''            let mut seal_sources: BTreeSet<_> = BTreeSet::new();
            block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .any(|src| seal_sources.insert(src));

''')
bug('src-all-break', 'C09', SRC='''            let mut seal_sources: BTreeSet<_> = BTreeSet::new();
            block.defined_seals.iter().all(|(pos, seal)| match seal.to_src() {
                Some(seal) => seal_sources.insert((CellAddr::new(opid, *pos), seal)),
                None => false,
            });

''')
bug('src-map-token', 'C09', SRC='''            let by_token = block
                .defined_seals
                .iter()
                .map(|(pos, seal)| (seal.auth_token(), (*pos, seal)))
                .collect::<BTreeMap<_, _>>();
            let mut seal_sources: BTreeSet<_> = by_token
                .values()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                .collect();

''')
bug('src-set-seals', 'C09', SRC='''            let unique = block.defined_seals.values().filter_map(|seal| seal.to_src()).collect::<BTreeSet<_>>();
            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .zip(unique)
                .map(|((pos, _), seal)| (CellAddr::new(opid, *pos), seal))
                .collect();

''')
bug('src-by-seal', 'C09', SRC='''            let by_seal = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| seal.to_src().map(|seal| (seal, CellAddr::new(opid, *pos))))
                .collect::<BTreeMap<_, _>>();
            let mut seal_sources: BTreeSet<_> = by_seal.into_iter().map(|(seal, addr)| (addr, seal)).collect();

''')
bug('fin-entry', 'C09', FIN=rep('FIN', ('seals.extend(seal_sources);', 'for (addr, seal) in seal_sources {\n                if seals.values().all(|other| *other != seal) {\n                    seals.insert(addr, seal);\n                }\n            }')))
bug('fin-find', 'C09', FIN=rep('FIN', ('seals.extend(seal_sources);', 'seal_sources.into_iter().map(|(addr, seal)| seals.insert(addr, seal)).find(|old| old.is_some());')))
bug('fin-last', 'C09', FIN=rep('FIN', ('seals.extend(seal_sources);', 'if let Some((addr, seal)) = seal_sources.pop_last() {\n                seals.insert(addr, seal);\n            }')))
bug('fin-try', 'C09', FIN=rep('FIN', ('seals.extend(seal_sources);', 'let _ = seal_sources.into_iter().try_for_each(|(addr, seal)| match seals.insert(addr, seal) {\n                None if addr.pos < 1000 => Ok(()),\n                _ => Err(()),\n            });')))
