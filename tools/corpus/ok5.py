"""Variants with the same behaviour: items moved, renamed, added around the procedure."""
import re
from base import B, SB, EVAL, V, S, L, between

VARIANTS = {}


def ok(name, **kw):
    VARIANTS[name] = kw


LIC = V[:V.index('use alloc')]
OPS = between(V, '/// Combination of an operation', '/// Provider which reads')
RD = between(V, '/// Provider which reads', '/// API exposed by')
API = between(V, '/// API exposed by', '/// Main implementation')
PROC = between(V, '/// Main implementation', '/// Errors returned')
ERR = between(V, '/// Errors returned', '#[cfg(test)]')
TEST = V[V.index('#[cfg(test)]'):]
USES = between(V, 'use alloc', '/// Combination of')
NOW = '#![allow(unused_imports)]\n'


def split(files, mods, uses, keep, pub):
    """Files other than verify.rs, modules declared in lib.rs, imports added to verify.rs, what stays there, the exports."""
    def lib(out):
        return out['src/lib.rs'].replace('mod verify;\n', mods + 'mod verify;\n').replace(
            'pub use verify::{ContractApi, ContractVerify, OperationSeals, ReadOperation, VerificationError};', pub)
    f = {k: LIC + v for k, v in files.items()}
    f['src/verify.rs'] = LIC + '#![allow(unused_imports)]\n' + USES + uses + ''.join(keep) + TEST
    f['src/lib.rs'] = lib
    return f


ok('error-module', FILES=split({'src/error.rs': '#![allow(unused_imports)]\n' + USES + ERR}, 'mod error;\n', 'use crate::error::VerificationError;\n', [OPS, RD, API, PROC],
   'pub use verify::{ContractApi, ContractVerify, OperationSeals, ReadOperation};\npub use error::VerificationError;'))
ok('operation-module', FILES=split({'src/operation.rs': '#![allow(unused_imports)]\n' + USES + OPS}, 'mod operation;\n', 'use crate::operation::OperationSeals;\n', [RD, API, PROC, ERR],
   'pub use verify::{ContractApi, ContractVerify, ReadOperation, VerificationError};\npub use operation::OperationSeals;'))
ok('api-module', FILES=split({'src/api.rs': '#![allow(unused_imports)]\n' + USES + 'use crate::verify::OperationSeals;\n' + API + RD}, 'mod api;\n', 'use crate::api::{ContractApi, ReadOperation};\n', [OPS, PROC, ERR],
   'pub use api::{ContractApi, ReadOperation};\npub use verify::{ContractVerify, OperationSeals, VerificationError};'))
ok('proc-module', FILES=split({'src/evaluate.rs': '#![allow(unused_imports)]\n' + USES + 'use crate::verify::*;\n' + PROC}, 'mod evaluate;\n', 'use crate::evaluate::ContractVerify;\n', [OPS, RD, API, ERR],
   'pub use evaluate::ContractVerify;\npub use verify::{ContractApi, OperationSeals, ReadOperation, VerificationError};'))
ok('all-modules', FILES=split({
    'src/api.rs': '#![allow(unused_imports)]\n' + USES + 'use crate::operation::OperationSeals;\n' + API + RD,
    'src/operation.rs': '#![allow(unused_imports)]\n' + USES + OPS, 'src/error.rs': '#![allow(unused_imports)]\n' + USES + ERR},
    'mod api;\nmod operation;\nmod error;\n', 'use crate::api::{ContractApi, ReadOperation};\nuse crate::operation::OperationSeals;\nuse crate::error::VerificationError;\n', [PROC],
    'pub use api::{ContractApi, ReadOperation};\npub use error::VerificationError;\npub use operation::OperationSeals;\npub use verify::ContractVerify;'))
ok('dir-module', FILES={'src/verify.rs': None, 'src/verify/mod.rs': LIC + '#![allow(unused_imports)]\nmod api;\nmod error;\npub use api::*;\npub use error::*;\n' + USES + OPS + PROC + TEST,
                        'src/verify/api.rs': '#![allow(unused_imports)]\n' + USES + 'use super::OperationSeals;\n' + RD + API,
                        'src/verify/error.rs': '#![allow(unused_imports)]\n' + USES + ERR})
ok('inline-module', FILES={'src/verify.rs': None, 'src/lib.rs': lambda o: o['src/lib.rs'].replace('mod verify;\n', 'mod verify {\n#![allow(unused_imports)]\n' + V[len(LIC):] + '}\n')})
ok('lib-items', FILES={'src/verify.rs': None, 'src/lib.rs': lambda o: o['src/lib.rs'].replace('mod verify;\n', '').replace(
    'pub use verify::{ContractApi, ContractVerify, OperationSeals, ReadOperation, VerificationError};\n', '') + V[len(LIC):].replace('use crate::{RgbSeal, RgbSealDef, LIB_NAME_RGB};\n', '').replace(
    'use single_use_seals::{PublishedWitness, SealError, SealWitness};', 'extern crate std;').replace('use super::*;', 'use super::*;\n    use single_use_seals::*;')})
SB1 = S.index('#[cfg(any(feature = "bitcoin"'); SB2 = S.index('#[cfg(test)]')
BM = S[SB1:SB2]
ok('bitcoin-file', FILES={'src/bitcoin.rs': BM[BM.index('    use bp::seals'):BM.rindex('}')].replace('    use super::*;', '    use single_use_seals::{PublishedWitness, SingleUseSeal};\n    use ultrasonic::AuthToken;\n    use crate::{RgbSeal, RgbSealDef};'),
                          'src/seals.rs': S[:SB1] + S[SB2:],
                          'src/lib.rs': L.replace('mod seals;\n', 'mod seals;\n#[cfg(any(feature = "bitcoin", feature = "liquid"))]\nmod bitcoin;\n')})
ok('seal-module', FILES={'src/seals.rs': None, 'src/seal_api.rs': S, 'src/lib.rs': L.replace('mod seals;\n', 'mod seal_api;\n').replace('pub use seals::', 'pub use seal_api::')})
ok('seal-dir', FILES={'src/seals.rs': None, 'src/seals/mod.rs': S[:SB1].replace('use core::fmt', 'mod def;\npub use def::RgbSealDef;\n#[cfg(any(feature = "bitcoin", feature = "liquid"))]\nmod txo;\nuse core::fmt').replace(
    between(S, '/// A type which serves as a definition', '/// A type which serves as a single-use seal protocol'), '').replace('use strict_encoding::{StrictDecode, StrictDumb, StrictEncode};\nuse ultrasonic::AuthToken;\n', ''),
    'src/seals/def.rs': 'use core::fmt::{Debug, Display};\nuse single_use_seals::{PublishedWitness, SingleUseSeal};\nuse strict_encoding::{StrictDecode, StrictDumb, StrictEncode};\nuse ultrasonic::AuthToken;\nuse super::RgbSeal;\n'
    + between(S, '/// A type which serves as a definition', '/// A type which serves as a single-use seal protocol'),
    'src/seals/txo.rs': BM[BM.index('    use bp::seals'):BM.rindex('}')].replace('    use super::*;', '    use single_use_seals::{PublishedWitness, SingleUseSeal};\n    use ultrasonic::AuthToken;\n    use crate::{RgbSeal, RgbSealDef};')})
ok('generic-names', FILES={'src/verify.rs': re.sub(r'(?<![:\w])Seal(?= = Seal)', '@', re.sub(r'(?<![\w:])type Seal\b', 'type @', V[:V.index('#[cfg(test)]')])).replace(
    'Self::Seal', 'Self::@').replace('R::Seal', 'R::@')})
_f = VARIANTS['generic-names']['FILES']
_f['src/verify.rs'] = re.sub(r'(?<![\w/"] )\bSeal\b(?! (seal|definition))', 'S', _f['src/verify.rs']).replace('@', 'Seal') + TEST
ok('alias', SUB=[('let mut seals = BTreeMap::<CellAddr, Seal>::new();', 'let mut seals = Registry::<Seal>::new();'),
                 ('BTreeSet<_> = block\n                .defined_seals', 'BTreeSet<(CellAddr, Seal)> = block\n                .defined_seals')],
   ITEMS='type Registry<Seal> = BTreeMap<CellAddr, Seal>;\n')
ok('ops-methods', SETS='''            let defined = block.cell_tokens();
            let reported = block.reported_tokens();
''', MATCH='''            if !block.is_consistent() {
                return Err(VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources: block.sources() });
            }

''', ITEMS='''impl<Seal: RgbSeal> OperationSeals<Seal> {
    /// Tokens of the destructible cells.
    pub fn cell_tokens(&self) -> BTreeSet<AuthToken> { self.operation.destructible_out.iter().map(|cell| cell.auth).collect() }
    /// Tokens of the reported definitions.
    pub fn reported_tokens(&self) -> BTreeSet<AuthToken> { self.defined_seals.values().map(RgbSealDef::auth_token).collect() }
    /// Whether each definition matches its cell.
    #[must_use]
    #[inline]
    pub fn is_consistent(&self) -> bool {
        self.defined_seals.iter().all(|(no, def)| {
            matches!(self.operation.destructible_out.get(*no as usize), Some(cell) if cell.auth == def.auth_token())
        })
    }
    fn sources(&self) -> BTreeMap<u16, String> {
        let mut map = BTreeMap::new();
        for (no, def) in &self.defined_seals {
            map.insert(*no, def.to_string());
        }
        map
    }
}
''')
ok('ops-public', ITEMS='''impl<Seal: RgbSeal> OperationSeals<Seal> {
    /// A new operation.
    pub fn new(operation: Operation, defined_seals: SmallOrdMap<u16, Seal::Definition>, witness: Option<SealWitness<Seal>>) -> Self {
        Self { operation, defined_seals, witness }
    }
    /// Operation id.
    pub fn opid(&self) -> Opid { self.operation.opid() }
    /// Adds a witness.
    pub fn with_witness(mut self, witness: SealWitness<Seal>) -> Self {
        self.witness = Some(witness);
        self
    }
    /// Number of seals.
    pub fn seal_count(&self) -> usize { self.defined_seals.len() }
}
impl<Seal: RgbSeal> From<Operation> for OperationSeals<Seal> {
    fn from(operation: Operation) -> Self { Self::new(operation, none!(), None) }
}
''')
ok('err-methods', ITEMS='''impl<Seal: RgbSeal> VerificationError<Seal> {
    /// The operation the error relates to.
    pub fn opid(&self) -> Option<Opid> {
        match self {
            Self::NoWitness(opid) | Self::SealsNotClosed(_, opid, _) | Self::SealsDefinitionMismatch { opid, .. } => Some(*opid),
            Self::Stream(_) | Self::NoCodexCommitment | Self::SealUnknown(_) | Self::Vm(_) => None,
        }
    }
    fn stream(e: impl Error + 'static) -> Self { Self::Stream(Box::new(e)) }
}
''', SUB=[('.map_err(|e| VerificationError::Stream(Box::new(e)))?', '.map_err(VerificationError::stream)?')])
ok('prelude', LSUB=[('/// Strict type library name', '/// Common imports.\npub mod prelude {\n    pub use crate::{ContractApi, ContractVerify, OperationSeals, ReadOperation, RgbSeal, RgbSealDef, VerificationError};\n}\n\n/// Strict type library name')])
ok('def-ext-trait', ITEMS='''trait SealDefExt: RgbSealDef {
    fn is_relative(&self) -> bool;
    fn matches(&self, auth: AuthToken) -> bool;
}
impl<D: RgbSealDef> SealDefExt for D {
    fn is_relative(&self) -> bool { self.to_src().is_none() }
    fn matches(&self, auth: AuthToken) -> bool { self.auth_token() == auth }
}
''', MATCH=B['MATCH'].replace('cell.auth == seal.auth_token()', 'seal.matches(cell.auth)'), WIT=B['WIT'].replace('seal.to_src().is_none()', 'seal.is_relative()'))
ok('op-ext-trait', ITEMS='''trait OperationExt {
    fn addr(&self, pos: u16) -> CellAddr;
    fn inputs(&self) -> impl Iterator<Item = CellAddr> + '_;
    fn token(&self, pos: u16) -> Option<AuthToken>;
}
impl OperationExt for Operation {
    fn addr(&self, pos: u16) -> CellAddr { CellAddr::new(self.opid(), pos) }
    fn inputs(&self) -> impl Iterator<Item = CellAddr> + '_ { self.destructible_in.iter().map(|input| input.addr) }
    fn token(&self, pos: u16) -> Option<AuthToken> { self.destructible_out.get(usize::from(pos)).map(|cell| cell.auth) }
}
''', MATCH=B['MATCH'].replace('''block
                    .operation
                    .destructible_out
                    .get(*pos as usize)
                    .is_some_and(|cell| cell.auth == seal.auth_token())''', 'block.operation.token(*pos) == Some(seal.auth_token())'),
   CLOSED='''            let mut closed_seals = Vec::<Seal>::with_capacity(block.operation.destructible_in.len());
            for addr in block.operation.inputs() {
                closed_seals.push(seals.remove(&addr).ok_or(VerificationError::SealUnknown(addr))?);
            }

''')
ok('auth-trait-const', SSUB=[('    impl RgbSealDef for WTxoSeal {', '''    /// Length of an authorization token.
    const AUTH_TOKEN_LEN: usize = 30;

    fn shorten(id: [u8; 32]) -> [u8; AUTH_TOKEN_LEN] {
        let mut data = [0u8; AUTH_TOKEN_LEN];
        data.copy_from_slice(&id[..AUTH_TOKEN_LEN]);
        data
    }

    impl RgbSealDef for WTxoSeal {''')], AUTH='''            AuthToken::from(shorten(self.commit_id().to_byte_array()))
''')
ok('res-ext', RES='''            self.with_primary(self.primary_outpoint().unwrap_or_else(|wout| Outpoint::new(witness_id, wout)))
''', TOSRC='''            self.primary_outpoint().ok().map(|primary| self.with_primary(primary))
''', SITEMS='''    trait WTxoSealExt {
        fn primary_outpoint(&self) -> Result<Outpoint, bp::Vout>;
        fn with_primary(&self, primary: Outpoint) -> TxoSeal;
    }
    impl WTxoSealExt for WTxoSeal {
        fn primary_outpoint(&self) -> Result<Outpoint, bp::Vout> {
            match self.primary {
                WOutpoint::Wout(wout) => Err(wout),
                WOutpoint::Extern(outpoint) => Ok(outpoint),
            }
        }
        fn with_primary(&self, primary: Outpoint) -> TxoSeal { TxoSeal { primary, secondary: self.secondary } }
    }
''')
ok('tests-unchanged-docs', SUB=[('/// The purpose of the trait is to prevent overriding', '/// The aim of the trait is to prevent overriding')])
ok('debug-derive-like', SUB=[('{ write!(f, "{}", self) }', '{ core::fmt::Display::fmt(self, f) }')])
ok('attrs', SUB=[('    fn evaluate<R', '    #[inline]\n    #[allow(clippy::result_large_err)]\n    fn evaluate<R'), ('    /// Evaluate contract state', '    #[doc(alias = "verify")]\n    /// Evaluate contract state')])
ok('where-clause', SUB=[('    fn evaluate<R: ReadOperation<Seal = Seal>>(&mut self, mut reader: R) -> Result<(), VerificationError<Seal>> {',
                        '    fn evaluate<R>(&mut self, mut reader: R) -> Result<(), VerificationError<Seal>>\n    where R: ReadOperation<Seal = Seal> {')])
ok('blanket-where', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', 'impl<Seal, C> ContractVerify<Seal> for C\nwhere\n    Seal: RgbSeal,\n    C: ContractApi<Seal> + ?Sized,\n{\n}')])
ok('body-in-impl', FILES={'src/verify.rs': V.replace(between(V, '        let contract_id = self.contract_id();', '\nimpl<Seal: RgbSeal, C: ContractApi'), '        evaluate(self, reader)\n    }\n}\n').replace(
    'mut reader: R) -> Result<(), VerificationError<Seal>> {', 'reader: R) -> Result<(), VerificationError<Seal>> {').replace(
    '/// Errors returned', '''fn evaluate<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized, R: ReadOperation<Seal = Seal>>(contract: &mut C, mut reader: R) -> Result<(), VerificationError<Seal>> {
''' + EVAL.replace('self.', 'contract.').replace('self\n', 'contract\n') + '''}

/// Errors returned''', 1)})
