"""Bugs which compare elements of a collection with other elements of the same collection."""
from base import B, SB
from ok10 import ALL, rep
from ok11 import HEADC, STEP

VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


def match(t):
    return rep('MATCH', (ALL, t))


# --- some seal of the operation instead of the seal of the cell
bug('def-any-reported', 'C05', MATCH=match('''            let matching = block.defined_seals.keys().all(|pos| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| reported.contains(&cell.auth))
            });'''))
bug('def-any-defined', 'C05', MATCH=match('''            let matching = block.defined_seals.iter().all(|(pos, seal)| {
                (*pos as usize) < block.operation.destructible_out.len() && defined.contains(&seal.auth_token())
            });'''))
bug('def-any-reported-vec', 'C05', MATCH=match('''            let tokens = block.defined_seals.values().map(|seal| seal.auth_token()).collect::<Vec<_>>();
            let matching = block.defined_seals.keys().all(|pos| {
                block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| tokens.contains(&cell.auth))
            });'''))
bug('def-any-reported-any', 'C05', MATCH=match('''            let matching = block.defined_seals.keys().all(|pos| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| block.defined_seals.values().any(|seal| seal.auth_token() == cell.auth))
            });'''))
bug('def-any-reported-for', 'C05', MATCH=match('''            let mut matching = true;
            for pos in block.defined_seals.keys() {
                let mut found = false;
                for seal in block.defined_seals.values() {
                    if block.operation.destructible_out.get(*pos as usize).is_some_and(|cell| cell.auth == seal.auth_token()) {
                        found = true;
                    }
                }
                matching &= found;
            }'''))
bug('def-any-reported-fn', 'C05', MATCH=match('''            let has = |pos: u16| {
                block
                    .defined_seals
                    .values()
                    .any(|seal| block.operation.destructible_out.get(pos as usize).is_some_and(|cell| cell.auth == seal.auth_token()))
            };
            let matching = block.defined_seals.keys().copied().all(has);'''))
bug('def-any-auths', 'C05', MATCH=match('''            let auths = block.operation.destructible_out.iter().map(|cell| cell.auth).collect::<Vec<_>>();
            let matching = block
                .defined_seals
                .iter()
                .all(|(pos, seal)| auths.get(*pos as usize).is_some() && auths.contains(&seal.auth_token()));'''))
bug('def-subset-cells', 'C05', MATCH=match('''            let matching = reported.is_subset(&defined)
                && block.defined_seals.keys().all(|pos| (*pos as usize) < block.operation.destructible_out.len());'''))
bug('def-superset', 'C13', MATCH=match('''            let matching = reported.is_superset(&defined) && block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });'''))
bug('def-set-swapped', 'C05', MATCH=match('''            let have = block.operation.destructible_out.iter().enumerate().map(|(no, cell)| (no, cell.auth)).collect::<BTreeSet<_>>();
            let want = block.defined_seals.iter().map(|(pos, seal)| (*pos as usize, seal.auth_token())).collect::<BTreeSet<_>>();
            let matching = have.is_subset(&want);'''))
bug('def-set-no-pos', 'C05', MATCH=match('''            let have = block.operation.destructible_out.iter().map(|cell| (0usize, cell.auth)).collect::<BTreeSet<_>>();
            let want = block.defined_seals.iter().map(|(_, seal)| (0usize, seal.auth_token())).collect::<BTreeSet<_>>();
            let matching = want.is_subset(&have);'''))
bug('def-set-shift', 'C05', MATCH=match('''            let have = block.operation.destructible_out.iter().enumerate().map(|(no, cell)| (no + 1, cell.auth)).collect::<BTreeSet<_>>();
            let want = block.defined_seals.iter().map(|(pos, seal)| (*pos as usize, seal.auth_token())).collect::<BTreeSet<_>>();
            let matching = want.is_subset(&have);'''))
bug('def-dedup', 'C13', MATCH=match('''            let matching = reported.len() == block.defined_seals.len() && block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });'''))
bug('def-dup-cells', 'C13', MATCH=match('''            let mut matching = defined.len() == block.operation.destructible_out.len();
            matching = matching && block.defined_seals.iter().all(|(pos, seal)| {
                block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())
            });'''))
# --- inputs against inputs
bug('closed-skip-repeat', 'C06', CLOSED=HEADC + '''            let addrs = block.operation.destructible_in.iter().map(|input| input.addr).collect::<Vec<_>>();
            for (no, input) in block.operation.destructible_in.iter().enumerate() {
                if addrs[..no].contains(&input.addr) {
                    continue;
                }
''' + STEP)
bug('closed-first-addr', 'C06', CLOSED=HEADC + '''            for no in 0..block.operation.destructible_in.len() {
                let input = &block.operation.destructible_in[no];
                if block.operation.destructible_in.iter().enumerate().any(|(i, other)| i < no && other.addr == input.addr) {
                    continue;
                }
''' + STEP)
bug('closed-seen-set', 'C06', CLOSED=HEADC + '''            let mut seen = BTreeSet::new();
            for input in &block.operation.destructible_in {
                if !seen.insert(input.addr) {
                    continue;
                }
''' + STEP)
bug('closed-other-exists', 'C06', CLOSED=HEADC + '''            for no in 0..block.operation.destructible_in.len() {
                let input = &block.operation.destructible_in[no];
                if block.operation.destructible_in.iter().any(|other| other.addr.opid != input.addr.opid) {
                    continue;
                }
''' + STEP)
bug('closed-other-exists-for', 'C06', CLOSED=HEADC + '''            for input in &block.operation.destructible_in {
                if block.operation.destructible_in.iter().any(|other| other.addr.opid != input.addr.opid) {
                    continue;
                }
''' + STEP)
bug('closed-unique', 'C06', CLOSED=HEADC + '''            let unique = block.operation.destructible_in.iter().map(|input| input.addr).collect::<BTreeSet<_>>();
            for addr in unique {
                let seal = seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?;
                closed_seals.push(seal);
            }
''')
# --- sources against sources
bug('src-unique', 'C09', SRC='''            let mut seal_sources: BTreeSet<_> = BTreeSet::new();
            let mut used = BTreeSet::new();
            for (pos, seal) in &block.defined_seals {
                if let Some(src) = seal.to_src() {
                    if used.insert(seal.auth_token()) {
                        seal_sources.insert((CellAddr::new(opid, *pos), src));
                    }
                }
            }

''')
bug('src-other', 'C09', SRC='''            let sources = block.defined_seals.values().filter_map(|seal| seal.to_src()).collect::<Vec<_>>();
            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| {
                    let src = seal.to_src()?;
                    (sources.iter().filter(|other| **other == src).count() <= 1).then(|| (CellAddr::new(opid, *pos), src))
                })
                .collect();

''')
bug('src-contains', 'C09', SRC='''            let sources = block.defined_seals.values().filter_map(|seal| seal.to_src()).collect::<Vec<_>>();
            let mut seal_sources: BTreeSet<_> = block
                .defined_seals
                .iter()
                .filter_map(|(pos, seal)| {
                    let src = seal.to_src().or_else(|| sources.first().cloned())?;
                    Some((CellAddr::new(opid, *pos), src))
                })
                .collect();

''')
