"""Variants with the same behaviour: assertions of what holds."""
from base import B

VARIANTS = {}


def ok(n, **kw):
    VARIANTS[n] = kw


ok('das-closed-len', CLOSED=B['CLOSED'] + '            debug_assert_eq!(closed_seals.len(), block.operation.destructible_in.len());\n\n')
ok('das-closed-count', CLOSED=B['CLOSED'] + '            debug_assert!(closed_seals.len() == block.operation.destructible_in.len(), "one seal per input");\n\n')
ok('das-positions', MATCH=B['MATCH'] + '''            debug_assert!(block
                .defined_seals
                .keys()
                .all(|pos| (*pos as usize) < block.operation.destructible_out.len()));

''')
ok('das-positions-index', MATCH=B['MATCH'] + '''            debug_assert!(block
                .defined_seals
                .iter()
                .all(|(pos, seal)| block.operation.destructible_out[*pos as usize].auth == seal.auth_token()));

''')
ok('das-reported-subset', MATCH=B['MATCH'] + '''            debug_assert!(reported.is_subset(&defined));

''')
ok('das-sources-opid', SRC=B['SRC'] + '''            debug_assert!(seal_sources.iter().all(|(addr, _)| addr.opid == opid));

''')
ok('das-sources-len', SRC=B['SRC'] + '''            debug_assert!(seal_sources.len() <= block.defined_seals.len());

''')
ok('das-contract-id', GEN=B['GEN'] + '''            debug_assert!(!is_genesis || block.operation.contract_id == contract_id);
''')
ok('das-not-empty', SEALS=B['SEALS'].replace('''                self.apply_seals''', '''                debug_assert_ne!(block.defined_seals.len(), 0);
                self.apply_seals'''))
ok('das-first-empty', CLOSED='''            debug_assert!(!is_genesis || seals.is_empty());

''' + B['CLOSED'])
ok('das-opid-again', KNOWN='''            debug_assert_eq!(opid, block.operation.opid(), "the operation does not change");

''' + B['KNOWN'])
ok('das-witness-or-none', FIN='''            debug_assert!(seal_sources.len() <= u16::MAX as usize + 1);

''' + B['FIN'])
ok('as-closed-len', CLOSED=B['CLOSED'] + '            assert_eq!(closed_seals.len(), block.operation.destructible_in.len());\n\n')
ok('as-reported-subset', MATCH=B['MATCH'] + '''            assert!(reported.is_subset(&defined), "each reported token belongs to a cell");

''')
ok('unreachable-none', MATCH=B['MATCH'] + '''            for (pos, _) in &block.defined_seals {
                let Some(_cell) = block.operation.destructible_out.get(*pos as usize) else {
                    unreachable!("checked above");
                };
            }

''')
ok('expect-removed', CLOSED='''            if let Some(input) = block.operation.destructible_in.iter().find(|input| !seals.contains_key(&input.addr)) {
                return Err(VerificationError::SealUnknown(input.addr));
            }
            let mut closed_seals = Vec::<Seal>::new();
            for input in &block.operation.destructible_in {
                let seal = seals
                    .remove(&input.addr)
                    .ok_or(VerificationError::SealUnknown(input.addr))?;
                closed_seals.push(seal);
            }

''')
ok('das-no-more-defs', MATCH=B['MATCH'] + '''            debug_assert!(block.defined_seals.len() <= block.operation.destructible_out.len());

''')
ok('das-sets-len', SETS=B['SETS'] + '''            debug_assert!(defined.len() <= block.operation.destructible_out.len());
            debug_assert!(reported.len() <= block.defined_seals.len());
''')
ok('das-genesis-closes-none', CLOSED=B['CLOSED'] + '''            debug_assert!(!is_genesis || closed_seals.is_empty());

''')
ok('extend-if-any', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            if !seal_sources.is_empty() {\n                seals.extend(seal_sources);\n            }\n'))
ok('skip-if-none', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            if seal_sources.is_empty() == false || !block.defined_seals.is_empty() {\n                seals.extend(seal_sources);\n            }\n'))
ok('len-or-defs', FIN=B['FIN'].replace('            seals.extend(seal_sources);\n', '            let any = !seal_sources.is_empty();\n            if any || !block.defined_seals.is_empty() {\n                seals.extend(seal_sources);\n            }\n'))
EXT = '            seals.extend(seal_sources);\n'


def fin(n, text):
    ok(n, FIN=B['FIN'].replace(EXT, text))


fin('extend-if-defs', '''            if !block.defined_seals.is_empty() {
                seals.extend(seal_sources);
            }
''')
fin('extend-len', '''            if seal_sources.len() > 0 {
                seals.extend(seal_sources);
            }
''')
fin('extend-match-len', '''            match seal_sources.len() {
                0 => {}
                _ => seals.extend(seal_sources),
            }
''')
fin('extend-any-of', '''            if block.defined_seals.iter().next().is_some() && !seal_sources.is_empty() {
                for (addr, seal) in seal_sources {
                    seals.insert(addr, seal);
                }
            }
''')
ok('close-if-any', CLOSED='''            let mut closed_seals = Vec::<Seal>::new();
            if !block.operation.destructible_in.is_empty() {
                for input in &block.operation.destructible_in {
                    let seal = seals
                        .remove(&input.addr)
                        .ok_or(VerificationError::SealUnknown(input.addr))?;
                    closed_seals.push(seal);
                }
            }

''')
ok('match-if-any', MATCH=B['MATCH'].replace('            let matching = block', '            let matching = block.defined_seals.is_empty() || block'))
ok('wit-if-any', WIT=B['WIT'].replace('                let iter = block', '                if block.defined_seals.values().any(|seal| seal.to_src().is_none()) {\n                let iter = block').replace(
    '                seal_sources.extend(iter);\n', '                seal_sources.extend(iter);\n                }\n'))
ok('src-if-any', SRC='''            let mut seal_sources = BTreeSet::new();
            if block.defined_seals.values().any(|seal| seal.to_src().is_some()) {
                seal_sources = block
                    .defined_seals
                    .iter()
                    .filter_map(|(pos, seal)| seal.to_src().map(|seal| (CellAddr::new(opid, *pos), seal)))
                    .collect();
            }

''')
