"""Cuts the source of the crate into named blocks, which variants replace."""
import os
REPO = '/repo'
V = open(os.path.join(REPO, 'src/verify.rs')).read()
S = open(os.path.join(REPO, 'src/seals.rs')).read()
L = open(os.path.join(REPO, 'src/lib.rs')).read()


def between(s, a, b):
    i = s.index(a)
    return s[i:s.index(b, i)]


B = {
    'PRE': between(V, '        let contract_id = self.contract_id();', '        while let Some(mut block)'),
    'HEAD': between(V, '        while let Some(mut block)', '            // Genesis cannot commit'),
    'GEN': between(V, '            // Genesis cannot commit', '            let opid = block.operation.opid();'),
    'OPID': '            let opid = block.operation.opid();\n',
    'SETS': between(V, '            // We need to check that all seal', '            // Not every cell'),
    'MATCH': between(V, '            // Not every cell', '            // Collect single-use'),
    'CLOSED': between(V, '            // Collect single-use', '            // If the operation was'),
    'KNOWN': between(V, '            // If the operation was', '            // This convoluted'),
    'SRC': between(V, '            // This convoluted', '            if let Some(witness) = block.witness'),
    'WIT': between(V, '            if let Some(witness) = block.witness', '            seals.extend(seal_sources);'),
    'FIN': between(V, '            seals.extend(seal_sources);', '            if !block.defined_seals.is_empty()'),
    'SEALS': between(V, '            if !block.defined_seals.is_empty()', '        Ok(())\n    }\n}'),
    'CLONE': between(V, '        Self {\n            operation: self.operation.clone()', '    }\n}\n\n/// Provider'),
}
EVAL = between(V, '        let contract_id = self.contract_id();', '    }\n}\n\nimpl<Seal: RgbSeal, C: ContractApi')
SB = {
    'AUTH': between(S, '            let id = self.commit_id()', '        }\n\n        fn resolve(\n            &self,\n            witness_id: <<Self::Src as SingleUseSeal>::PubWitness as PublishedWitness<Self::Src>>::PubId,\n        ) -> Self::Src {\n            let'),
    'RES': between(S, '            let primary = match self.primary {\n                WOutpoint::Wout(wout) =>', '        }\n\n        fn to_src'),
    'TOSRC': between(S, '            let primary = match self.primary {\n                WOutpoint::Wout(_) => return None', '        }\n    }\n}\n\n#[cfg(test)]'),
}


def apply(var):
    """The source files of a variant: {path: text}."""
    v, s, l = V, S, L
    for k, t in sorted(var.items(), key=lambda x: (x[0] in ('SUB', 'SSUB', 'LSUB'), x[0] != 'OPID')):
        if k in B:
            assert v.count(B[k]) == 1, k
            v = v.replace(B[k], t)
        elif k == 'FILES':
            continue
        elif k == 'EVAL':
            v = v.replace(EVAL, t)
        elif k in SB:
            assert s.count(SB[k]) == 1, k
            s = s.replace(SB[k], t)
        elif k == 'ITEMS':
            v = v.replace('/// Errors returned from the verification.\n', t + '\n/// Errors returned from the verification.\n', 1)
        elif k == 'SITEMS':
            s = s.replace('    impl RgbSeal for TxoSeal {', t + '\n    impl RgbSeal for TxoSeal {', 1)
        elif k == 'USE':
            v = v.replace('use alloc::vec::Vec;\n', 'use alloc::vec::Vec;\n' + t, 1)
        elif k == 'SUB':
            for a, b in t:
                assert v.count(a) == 1, (v.count(a), a)
                v = v.replace(a, b)
        elif k == 'SSUB':
            for a, b in t:
                assert s.count(a) == 1, (s.count(a), a)
                s = s.replace(a, b)
        elif k == 'LSUB':
            for a, b in t:
                assert l.count(a) == 1, (l.count(a), a)
                l = l.replace(a, b)
        else:
            raise KeyError(k)
    out = {'src/verify.rs': v, 'src/seals.rs': s, 'src/lib.rs': l}
    out.update({p: t(out) if callable(t) else t for p, t in var.get('FILES', {}).items()})
    return {p: t for p, t in out.items() if t is not None}
