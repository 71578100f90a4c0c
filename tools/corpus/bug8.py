"""Bugs which depend on several elements of a collection, on loops within loops, on helpers used twice and on moved collections."""
from base import B, SB
from ok10 import ALL, rep
from ok11 import HEADC, STEP

VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


OKP = '''|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(**pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            }'''
OKC = '''            let good = |pos: &u16, seal: &Seal::Definition| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            };
'''


def match(t):
    return rep('MATCH', (ALL, t))


# --- existence where all are meant, mixed
bug('def-some-good', 'C05', MATCH=match(OKC + '''            let some_good = block.defined_seals.iter().any(|(pos, seal)| good(pos, seal));
            let some_bad = block.defined_seals.iter().any(|(pos, seal)| !good(pos, seal));
            let matching = some_good || !some_bad;'''))
bug('def-bad-two', 'C05', MATCH=match(OKC + '''            let bad = block.defined_seals.iter().filter(|(pos, seal)| !good(pos, seal)).count();
            let matching = bad < 2;'''))
bug('def-bad-less-good', 'C05', MATCH=match(OKC + '''            let bad = block.defined_seals.iter().filter(|(pos, seal)| !good(pos, seal)).count();
            let fine = block.defined_seals.iter().filter(|(pos, seal)| good(pos, seal)).count();
            let matching = bad <= fine;'''))
bug('def-find-first-good', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.is_empty() || block.defined_seals.iter().find(|(pos, seal)| good(pos, seal)).is_some();'''))
bug('def-position', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().position(|(pos, seal)| !good(pos, seal)) != Some(0);'''))
bug('def-last-bad', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().filter(|(pos, seal)| !good(pos, seal)).last().is_none_or(|(pos, _)| *pos as usize >= block.operation.destructible_out.len());'''))
bug('def-nested-any', 'C05', MATCH=match('''            let matching = block.defined_seals.values().all(|seal| {
                block.operation.destructible_out.iter().any(|cell| cell.auth == seal.auth_token())
            });'''))
bug('def-nested-any-idx', 'C05', MATCH=match('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                block.operation.destructible_out.iter().enumerate().any(|(no, cell)| no as u16 >= *pos && cell.auth == seal.auth_token())
            });'''))
bug('def-nested-any-any', 'C05', MATCH=match('''            let matching = block.operation.destructible_out.iter().enumerate().any(|(no, cell)| {
                block.defined_seals.iter().all(|(pos, seal)| usize::from(*pos) == no && cell.auth == seal.auth_token())
            }) || block.defined_seals.len() != 1;'''))
bug('def-nested-two-any', 'C05', MATCH=match('''            let cells = &block.operation.destructible_out;
            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                cells.iter().enumerate().any(|(no, _)| no == usize::from(*pos)) && cells.iter().any(|cell| cell.auth == seal.auth_token())
            });'''))
bug('def-cells-loop', 'C05', MATCH=match('''            let mut matching = true;
            for (no, cell) in block.operation.destructible_out.iter().enumerate() {
                for (pos, seal) in &block.defined_seals {
                    if usize::from(*pos) == no && cell.auth != seal.auth_token() {
                        matching = false;
                    }
                }
            }'''))
bug('def-nested-found', 'C05', MATCH=match('''            let mut found = false;
            let mut matching = true;
            for (pos, seal) in &block.defined_seals {
                for (no, cell) in block.operation.destructible_out.iter().enumerate() {
                    if usize::from(*pos) == no && cell.auth == seal.auth_token() {
                        found = true;
                    }
                }
                matching &= found;
            }'''))
bug('def-nested-break', 'C05', MATCH=match('''            let mut matching = true;
            'defs: for (pos, seal) in &block.defined_seals {
                for (no, cell) in block.operation.destructible_out.iter().enumerate() {
                    if usize::from(*pos) == no {
                        if cell.auth != seal.auth_token() {
                            matching = false;
                        }
                        break 'defs;
                    }
                }
                matching = false;
            }'''))
bug('def-helper-twice', 'C05', MATCH=match('''            let cells = &block.operation.destructible_out;
            let check = |defs: &[(&u16, &Seal::Definition)]| {
                defs.iter().all(|(pos, seal)| cells.get(usize::from(**pos)).is_some_and(|cell| cell.auth == seal.auth_token()))
            };
            let head = block.defined_seals.iter().take(4).collect::<Vec<_>>();
            let tail = block.defined_seals.iter().skip(5).collect::<Vec<_>>();
            let matching = check(&head) && check(&tail);'''))
bug('def-halves', 'C05', MATCH=match(OKC + '''            let half = block.defined_seals.len() / 2;
            let matching = block.defined_seals.iter().take(half).all(|(pos, seal)| good(pos, seal))
                && block.defined_seals.iter().rev().take(half).all(|(pos, seal)| good(pos, seal));'''))
bug('def-fold-last', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().fold(true, |_, (pos, seal)| good(pos, seal));'''))
bug('def-fold-or', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().fold(block.defined_seals.is_empty(), |was, (pos, seal)| was || good(pos, seal));'''))
bug('def-fold-xor', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().fold(true, |was, (pos, seal)| was ^ !good(pos, seal));'''))
bug('def-try-fold', 'C05', MATCH=match(OKC + '''            let matching = block
                .defined_seals
                .iter()
                .try_fold((), |_, (pos, seal)| if good(pos, seal) { None } else { Some(()) })
                .is_none();'''))
bug('def-reduce', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().map(|(pos, seal)| good(pos, seal)).reduce(|a, b| a | b).unwrap_or(true);'''))
bug('def-max', 'C05', MATCH=match(OKC + '''            let matching = block.defined_seals.iter().map(|(pos, seal)| good(pos, seal)).max().unwrap_or(true);'''))
bug('def-windows', 'C05', MATCH=match(OKC + '''            let all = block.defined_seals.iter().map(|(pos, seal)| good(pos, seal)).collect::<Vec<_>>();
            let matching = all.windows(2).all(|w| w[0] && w[1]);'''))
bug('def-chunks', 'C05', MATCH=match(OKC + '''            let all = block.defined_seals.iter().map(|(pos, seal)| good(pos, seal)).collect::<Vec<_>>();
            let matching = all.chunks(2).all(|w| w[0]);'''))
bug('def-contains', 'C05', MATCH=match(OKC + '''            let all = block.defined_seals.iter().map(|(pos, seal)| good(pos, seal)).collect::<Vec<_>>();
            let matching = all.contains(&true) || !all.contains(&false);'''))
bug('def-set-compare', 'C05', MATCH=match('''            let have = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<BTreeSet<_>>();
            let want = block.defined_seals.values().map(|seal| seal.auth_token()).collect::<BTreeSet<_>>();
            let matching = want.is_subset(&have) && block.defined_seals.keys().all(|pos| (*pos as usize) < block.operation.destructible_out.len());'''))
bug('def-set-tuple', 'C05', MATCH=match('''            let have = block.operation.destructible_out.iter().enumerate().map(|(no, cell)| (no as u8, cell.auth)).collect::<BTreeSet<_>>();
            let want = block.defined_seals.iter().map(|(pos, seal)| (*pos as u8, seal.auth_token())).collect::<BTreeSet<_>>();
            let matching = want.is_subset(&have);'''))
# --- the closed seals
bug('closed-two-loops', 'C06', CLOSED=HEADC + '''            for input in block.operation.destructible_in.iter().step_by(2) {
                closed_seals.push(seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?);
            }
            for input in block.operation.destructible_in.iter().skip(1).step_by(3) {
                closed_seals.push(seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?);
            }

''')
bug('closed-check-then-some', 'C06', CLOSED=HEADC + '''            if let Some(input) = block.operation.destructible_in.iter().find(|input| !seals.contains_key(&input.addr)) {
                return Err(VerificationError::SealUnknown(input.addr));
            }
            for input in &block.operation.destructible_in {
                if let Some(seal) = seals.remove(&input.addr) {
                    closed_seals.push(seal);
                }
            }

''')
bug('closed-check-then-get', 'C07', CLOSED=HEADC + '''            for input in &block.operation.destructible_in {
                match seals.get(&input.addr) {
                    None => return Err(VerificationError::SealUnknown(input.addr)),
                    Some(seal) => closed_seals.push(seal.clone()),
                }
            }
            for input in block.operation.destructible_in.iter().skip(1) {
                seals.remove(&input.addr);
            }

''')
bug('closed-helper-twice', 'C06', CLOSED='''            let split = block.operation.destructible_in.len() / 2;
            let mut closed_seals = close(&mut seals, &block.operation.destructible_in[..split])?;
            closed_seals.extend(close(&mut seals, &block.operation.destructible_in[split + 1..])?);

'''.replace('[split + 1..]', '.get(split + 1..).unwrap_or_default()').replace('close(&mut seals, &block.operation.destructible_in.get', 'close(&mut seals, block.operation.destructible_in.get'), ITEMS='''
fn close<S: RgbSeal>(seals: &mut BTreeMap<CellAddr, S>, inputs: &[ultrasonic::Input]) -> Result<Vec<S>, VerificationError<S>> {
    let mut closed = vec![];
    for input in inputs {
        closed.push(seals.remove(&input.addr).ok_or(VerificationError::SealUnknown(input.addr))?);
    }
    Ok(closed)
}
''')
bug('closed-collect-restore', 'C07', CLOSED=HEADC + '''            let before = seals.clone();
            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }
            if block.witness.is_none() && block.operation.destructible_out.is_empty() || self.is_known(opid) {
                seals = before;
            }

''')
bug('closed-swap-map', 'C07', CLOSED=HEADC + '''            let mut spendable = seals.clone();
            for input in &block.operation.destructible_in {
                let seal = spendable
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }
            if closed_seals.len() < 2 {
                core::mem::swap(&mut seals, &mut spendable);
            }

''')
bug('closed-shared-opid', 'C06', CLOSED=HEADC + '''            let mut last = None;
            for input in &block.operation.destructible_in {
                if last == Some(input.addr.opid) {
                    continue;
                }
                last = Some(input.addr.opid);
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }

''')
bug('closed-insert-front-skip', 'C06', CLOSED=HEADC + '''            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                if !closed_seals.is_empty() { closed_seals.pop(); }
                closed_seals.push(seal);
            }

''')
bug('closed-truncate', 'C06', CLOSED=B['CLOSED'] + '            closed_seals.truncate(16);\n')
bug('closed-retain', 'C06', CLOSED=B['CLOSED'] + '            closed_seals.retain(|seal| block.defined_seals.values().all(|def| def.to_src().as_ref() != Some(seal)));\n')
bug('closed-swap-remove', 'C06', CLOSED=B['CLOSED'] + '            if closed_seals.len() > 64 { closed_seals.swap_remove(0); }\n')
bug('closed-drain', 'C06', WIT=B['WIT'].replace('            if let Some(witness) = block.witness', '            let rest = closed_seals.split_off(closed_seals.len().min(32));\n            drop(rest);\n            if let Some(witness) = block.witness'), CLOSED=B['CLOSED'])
# --- registries
bug('reg-append-order', 'C09', SRC=B['SRC'].replace('BTreeSet<_>', 'BTreeMap<_, _>').replace('let mut seal_sources', 'let mut seal_sources') , FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            seals.retain(|addr, _| addr.opid != opid);\n            if block.witness_known { seals.extend(seal_sources); }\n').replace('if block.witness_known', 'if !closed_seals.is_empty() || is_genesis'))
bug('reg-retain-pos', 'C09', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            seals.extend(seal_sources);\n            seals.retain(|addr, _| addr.pos < 1024);\n'))
bug('reg-take', 'C09', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            if !seal_sources.is_empty() {\n                seals = core::mem::take(&mut seals).into_iter().chain(seal_sources).take(4096).collect();\n            }\n'))
bug('reg-entry', 'C09', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            for (addr, src) in seal_sources {\n                seals.entry(addr).or_insert(src);\n            }\n'))
bug('reg-first-only', 'C09', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            for (addr, src) in seal_sources {\n                if seals.insert(addr, src).is_some() {\n                    break;\n                }\n            }\n'))
bug('reg-opid-late', 'C09', SRC=B['SRC'].replace('CellAddr::new(opid, *pos)', 'CellAddr::new(if closed_seals.len() == 1 { Opid::from(contract_id.to_byte_array()) } else { opid }, *pos)'))
# --- the order of calls
bug('ord-known-after-apply', 'C04', KNOWN=B['KNOWN'].replace('let operation = if self.is_known(opid)', 'if is_genesis && !block.defined_seals.is_empty() {\n                self.apply_seals(opid, block.defined_seals.clone());\n            }\n            let operation = if self.is_known(opid)'))
bug('ord-apply-before-seals', 'C10', KNOWN=B['KNOWN'], WIT=B['WIT'].replace('if let Some(witness) = block.witness {', 'if let (Some(operation), true) = (&operation, closed_seals.is_empty() && !is_genesis) {\n                self.apply_operation(operation.clone());\n            }\n            if let Some(witness) = block.witness {'))
bug('ord-wit-other', 'C11', WIT=B['WIT'].replace('self.apply_witness(opid, witness);', 'self.apply_witness(if let Some(input) = block.operation.destructible_in.first() { input.addr.opid } else { opid }, witness);') if False else B['WIT'].replace('self.apply_witness(opid, witness);', 'if is_genesis || !closed_seals.is_empty() || operation.is_some() {\n                    self.apply_witness(opid, witness);\n                }'))
bug('wit-fail-known', 'C08', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals, msg.into())\n', '.verify_seals_closing(&closed_seals, msg.into())\n                    .or_else(|err| if operation.is_none() && block.defined_seals.is_empty() { Ok(()) } else { Err(err) })\n'))
bug('wit-closing-subset', 'C06', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals,', '.verify_seals_closing(&closed_seals[..closed_seals.len().min(255)],'))
bug('wit-closing-filtered', 'C06', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals,', '.verify_seals_closing(closed_seals.iter().filter(|seal| block.defined_seals.len() < 2 || closed_seals.first() != Some(*seal)),'))
bug('wit-closing-rev-skip', 'C06', WIT=B['WIT'].replace('.verify_seals_closing(&closed_seals,', '.verify_seals_closing(closed_seals.iter().rev().skip(if closed_seals.len() > 8 { 1 } else { 0 }),'))
