"""Bugs in iterators and collections of the crate's own, and in loops which look for items."""
from base import B, SB, EVAL
from ok10 import ALL, rep
from ok11 import HEADC
from ok12 import match
import ok14

VARIANTS = {}


def bug(n, want, **kw):
    kw['WANT'] = want.split(',')
    VARIANTS[n] = kw


def of(n, want, name, *subs):
    """A variant with the same behaviour, changed."""
    kw = dict(ok14.VARIANTS[name])
    for k, a, b in subs:
        assert a in kw[k], a
        kw[k] = kw[k].replace(a, b, 1)
    bug(n, want, **kw)


NX = '''        let addr = self.inputs.next()?.addr;
        Some(self.seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr)))
'''
for how in ('iter', 'for'):
    v = 'own-closing-' + how
    of('iter-stop-' + how, 'C06', v, ('ITEMS', NX, '''        let addr = self.inputs.next()?.addr;
        Some(Ok(self.seals.remove(&addr)?))
'''))
    of('iter-two-' + how, 'C06', v, ('ITEMS', NX, '''        let addr = self.inputs.next()?.addr;
        self.inputs.next();
        Some(self.seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr)))
'''))
    of('iter-ahead-' + how, 'C06', v, ('ITEMS', NX, '''        self.inputs.next()?;
        let addr = self.inputs.as_slice().first()?.addr;
        Some(self.seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr)))
'''))
    of('iter-skip-' + how, 'C06', v, ('ITEMS', NX, '''        loop {
            let addr = self.inputs.next()?.addr;
            if let Some(seal) = self.seals.remove(&addr) {
                return Some(Ok(seal));
            }
            if self.inputs.len() == 0 {
                return Some(Err(VerificationError::SealUnknown(addr)));
            }
        }
'''))
    of('iter-find-' + how, 'C06', v, ('ITEMS', NX, '''        let seals = &mut self.seals;
        self.inputs.find_map(|input| seals.remove(&input.addr)).map(Ok)
'''))
    of('iter-peek-' + how, 'C07', v, ('ITEMS', NX, '''        let addr = self.inputs.next()?.addr;
        if self.inputs.as_slice().len() % 2 == 1 {
            return self.seals.get(&addr).cloned().map(Ok).or(Some(Err(VerificationError::SealUnknown(addr))));
        }
        Some(self.seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr)))
'''))
NY = '''        let (pos, seal) = self.left.next()?;
        Some(self.op.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token()))
'''
for how in ('iter', 'position', 'loop'):
    v = 'own-defs-' + how
    of('defs-none-' + how, 'C05', v, ('ITEMS', NY, '''        let (pos, seal) = self.left.next()?;
        self.op.destructible_out.get(*pos as usize).map(|cell| cell.auth == seal.auth_token())
'''))
    of('defs-pair-' + how, 'C05', v, ('ITEMS', NY, '''        let (pos, seal) = self.left.next()?;
        let ok = self.op.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token());
        Some(ok || self.left.len() > 0)
'''))
    of('defs-filter-' + how, 'C05', v, ('ITEMS', NY, '''        let op = self.op;
        self.left
            .find_map(|(pos, seal)| op.destructible_out.get(*pos as usize).map(|cell| cell.auth == seal.auth_token()))
'''))
    of('defs-last-' + how, 'C05', v, ('ITEMS', NY, '''        let (pos, seal) = self.left.next_back()?;
        if self.left.len() == 0 && *pos > 0 {
            return None;
        }
        Some(self.op.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token()))
'''))
of('src-first', 'C09', 'own-sources-iter', ('ITEMS', 'self.left.find_map(|(pos, seal)| Some((CellAddr::new(opid, *pos), seal.to_src()?)))', '''let (pos, seal) = self.left.next()?;
        Some((CellAddr::new(opid, *pos), seal.to_src()?))'''))
of('into-skip', 'C09', 'own-into-iter', ('ITEMS', '''    type IntoIter = alloc::collections::btree_set::IntoIter<(CellAddr, S)>;

    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }''', '''    type IntoIter = core::iter::Take<alloc::collections::btree_set::IntoIter<(CellAddr, S)>>;

    fn into_iter(self) -> Self::IntoIter { self.0.into_iter().take(16) }'''))
of('into-drop', 'C09', 'own-into-iter', ('ITEMS', 'fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }', '''fn into_iter(mut self) -> Self::IntoIter {
        if self.0.len() > 2 {
            self.0.pop_last();
        }
        self.0.into_iter()
    }'''))
of('from-take', 'C09', 'own-from-iter', ('ITEMS', 'Sources(iter.into_iter().collect())', 'Sources(iter.into_iter().take(256).collect())'))
of('from-empty', 'C09', 'own-from-iter', ('ITEMS', 'Sources(iter.into_iter().collect())', 'let mut iter = iter.into_iter(); iter.next(); Sources(iter.collect())'))
of('extend-keep', 'C09', 'own-extend', ('ITEMS', 'self.0.insert(addr, seal);', 'self.0.entry(addr).or_insert(seal);'))
of('extend-full', 'C09', 'own-extend', ('ITEMS', 'self.0.insert(addr, seal);', 'if self.0.len() < 10_000 { self.0.insert(addr, seal); }'))
of('peq-default', 'C05', 'own-partial-eq', ('ITEMS', 'None => false', 'None => self.1 > 0'))
of('peq-pos', 'C05', 'own-partial-eq', ('ITEMS', 'self.1 as usize', 'self.1 as u8 as usize'))
of('left-once', 'C09', 'own-find-left', ('SRC', 'while let Some', 'if let Some'))
of('left-skip', 'C09', 'own-find-left', ('SRC', 'seal_sources.insert((CellAddr::new(opid, pos), seal));', 'left.next();\n                seal_sources.insert((CellAddr::new(opid, pos), seal));'))
of('inner-first', 'C09', 'own-find-inner-loop', ('SRC', "break (*pos, seal);\n                    }", "break (*pos, seal);\n                    }\n                    break 'defs;"))
bug('loop-effects', 'C09', SRC='''            let mut seal_sources = BTreeSet::new();
            let mut left = block.defined_seals.iter().filter(|(_, seal)| seal.to_src().is_some());
            let mut no = 0u16;
            loop {
                let pos = no;
                no += 1;
                let Some((_, seal)) = left.next() else { break };
                let Some(seal) = seal.to_src() else { continue };
                seal_sources.insert((CellAddr::new(opid, pos), seal));
            }

''')
bug('loop-limit', 'C09', SRC='''            let mut seal_sources = BTreeSet::new();
            let mut left = block.defined_seals.iter().filter(|(_, seal)| seal.to_src().is_some());
            let mut no = 0u16;
            loop {
                no += 1;
                let Some((pos, seal)) = left.next() else { break };
                if no > 64 {
                    break;
                }
                seal_sources.extend(seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)));
            }

''')
bug('inner-budget', 'C05', MATCH=match('''            let mut left = block.defined_seals.iter();
            let mut matching = true;
            'defs: loop {
                let mut skipped = 0;
                let (pos, seal) = loop {
                    let Some((pos, seal)) = left.next() else { break 'defs };
                    if seal.to_src().is_some() || skipped == 8 {
                        break (pos, seal);
                    }
                    skipped += 1;
                };
                matching &= block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token());
            }
'''))
