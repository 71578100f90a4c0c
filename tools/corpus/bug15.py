"""Variants which break a property: assertions of what does not always hold."""
from base import B

VARIANTS = {}


def bug(n, want, **kw):
    VARIANTS[n] = dict(kw, WANT=want.split(','))


bug('as-all-reported', 'C16', MATCH=B['MATCH'] + '''            assert_eq!(reported, defined);

''')
bug('as-each-cell-reported', 'C16', MATCH=B['MATCH'] + '''            assert_eq!(block.defined_seals.len(), block.operation.destructible_out.len());

''')
bug('as-reported-len', 'C16', MATCH=B['MATCH'] + '''            assert_eq!(reported.len(), block.defined_seals.len());

''')
bug('as-defined-len', 'C16', MATCH=B['MATCH'] + '''            assert_eq!(defined.len(), block.operation.destructible_out.len());

''')
bug('as-sources-len', 'C16', SRC=B['SRC'] + '''            assert_eq!(seal_sources.len(), block.defined_seals.len());

''')
bug('as-sources-less', 'C16', SRC=B['SRC'] + '''            assert!(seal_sources.len() < block.defined_seals.len() || seal_sources.is_empty());

''')
bug('as-sources-left', 'C16', SRC=B['SRC'] + '''            assert!(block.witness.is_some() || !block.defined_seals.is_empty());

''')
bug('as-registry-new', 'C16', FIN='''            assert!(seal_sources.iter().all(|(addr, _)| !seals.contains_key(addr)));
''' + B['FIN'])
bug('as-witness-closes', 'C16', WIT='''            assert_eq!(block.witness.is_some(), !closed_seals.is_empty());
''' + B['WIT'])
bug('as-genesis-no-inputs', 'C16', CLOSED='''            assert!(!is_genesis || block.operation.destructible_in.is_empty());
''' + B['CLOSED'])
bug('as-closed-before', 'C16', CLOSED='''            assert!(seals.len() >= block.operation.destructible_in.len());
''' + B['CLOSED'])
bug('as-position-count', 'C16', MATCH='''            assert!(block.defined_seals.len() <= block.operation.destructible_out.len());
''' + B['MATCH'])
bug('as-small', 'C16', CLOSED=B['CLOSED'] + '''            assert!(closed_seals.len() < u16::MAX as usize);
''')
bug('as-known-closes', 'C16', KNOWN=B['KNOWN'] + '''            assert!(operation.is_some() || block.witness.is_some());
''')
