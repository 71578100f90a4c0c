"""Bugs of configurations, copies, encodings, unsafe code and the trait's availability."""
from base import B, SB, S, between
from ok10 import ALL, rep
from ok12 import match

VARIANTS = {}


def bug(n, want, **kw):
    kw['WANT'] = want.split(',')
    VARIANTS[n] = kw


bug('c18-auth-liquid', 'C18,C14', AUTH=SB['AUTH'].replace('            AuthToken::', '''            if cfg!(all(feature = "liquid", not(feature = "std"))) {
                shortened_id[29] = 0;
            }
            AuthToken::'''))
bug('c18-first-prime', 'C18,C01', GEN=rep('GEN', ('if block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {', 'if !cfg!(feature = "prime") && block.operation.contract_id.to_byte_array() != codex_id.to_byte_array() {')))
bug('c18-const', 'C18,C05', MATCH=rep('MATCH', ('if !matching {', 'if STRICT && !matching {')), ITEMS='''
#[cfg(feature = "std")]
const STRICT: bool = true;
#[cfg(not(feature = "std"))]
const STRICT: bool = false;
''')
bug('c18-fn', 'C18,C07', CLOSED=rep('CLOSED', ('                let seal = seals\n                    .remove(&input.addr)', '                let seal = take(&mut seals, &input.addr)')), ITEMS='''
#[cfg(any(feature = "std", debug_assertions))]
fn take<S: RgbSeal>(seals: &mut BTreeMap<CellAddr, S>, addr: &CellAddr) -> Option<S> { seals.remove(addr) }
#[cfg(not(any(feature = "std", debug_assertions)))]
fn take<S: RgbSeal>(seals: &mut BTreeMap<CellAddr, S>, addr: &CellAddr) -> Option<S> { seals.get(addr).cloned() }
''')
bug('c18-debug-effect', 'C18', KNOWN=B['KNOWN'] + '            debug_assert!(closed_seals.iter().all(|seal| { seals.retain(|_, other| other != seal); true }));\n')
bug('c18-no-bitcoin', 'C18', SSUB=[('#[cfg(any(feature = "bitcoin", feature = "liquid"))]', '#[cfg(all(feature = "bitcoin", not(feature = "prime")))]')])
bug('c18-no-liquid', 'C18', SSUB=[('#[cfg(any(feature = "bitcoin", feature = "liquid"))]', '#[cfg(feature = "bitcoin")]')])
bug('c18-liquid-only-res', 'C18,C15', RES=SB['RES'].replace('WOutpoint::Extern(outpoint) => outpoint,', 'WOutpoint::Extern(outpoint) if cfg!(not(all(feature = "liquid", feature = "serde"))) => outpoint,\n                WOutpoint::Extern(outpoint) => Outpoint::new(witness_id, outpoint.vout),'))
bug('c18-overflow', 'C18,C05', MATCH=rep('MATCH', ('.get(*pos as usize)', '.get((*pos | 0x8000 as u16) as usize - if cfg!(debug_assertions) { 0x8000 } else { 0x7FFF })')))
bug('c18-clone', 'C18,C20', CLONE=B['CLONE'].replace('witness: self.witness.clone()', 'witness: if cfg!(feature = "serde") { None } else { self.witness.clone() }'))
bug('c18-derive', 'C18,C19', SUB=[('    /// An optional witness for', '    #[cfg_attr(not(feature = "serde"), strict_type(skip))]\n    /// An optional witness for')])
bug('c18-impl', 'C18,C21', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', '#[cfg(feature = "std")]\nimpl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}')])
bug('c18-msg', 'C18,C02', WIT=rep('WIT', ('let msg = opid.to_byte_array();', '#[cfg_attr(not(feature = "liquid"), allow(unused_mut))]\n                let mut msg = opid.to_byte_array();\n                #[cfg(all(feature = "liquid", not(feature = "bitcoin")))]\n                msg.reverse();')))
bug('c18-macro', 'C18,C06', CLOSED=rep('CLOSED', ('                    .ok_or(VerificationError::SealUnknown(input.addr))?;\n                closed_seals.push(seal);', ';\n                register!(closed_seals, seal, input);')), ITEMS='''
''', USE='''
#[cfg(any(feature = "std", feature = "serde"))]
macro_rules! register {
    ($to:ident, $seal:ident, $input:ident) => {
        $to.push($seal.ok_or(VerificationError::SealUnknown($input.addr))?)
    };
}
#[cfg(not(any(feature = "std", feature = "serde")))]
macro_rules! register {
    ($to:ident, $seal:ident, $input:ident) => {{
        let _ = $input;
        $to.extend($seal)
    }};
}
''')
# --- copies
bug('c20-filter', 'C20', CLONE=B['CLONE'].replace('self.witness.clone()', 'self.witness.clone().filter(|_| !self.operation.destructible_in.is_empty())'))
bug('c20-half', 'C20', CLONE=B['CLONE'].replace('self.defined_seals.clone()', 'SmallOrdMap::from_checked(self.defined_seals.iter().take(u8::MAX as usize).map(|(k, v)| (*k, v.clone())).collect())'))
bug('c20-keys', 'C20', CLONE=B['CLONE'].replace('self.defined_seals.clone()', 'SmallOrdMap::from_checked(self.defined_seals.values().enumerate().map(|(k, v)| (k as u16, v.clone())).collect())'))
bug('c20-src', 'C20', CLONE=B['CLONE'].replace('self.defined_seals.clone()', 'SmallOrdMap::from_checked(self.defined_seals.iter().filter(|(_, v)| v.to_src().is_some() || self.witness.is_some()).map(|(k, v)| (*k, v.clone())).collect())'))
bug('c20-op-out', 'C20', CLONE='        let mut operation = self.operation.clone();\n        if operation.destructible_in.is_empty() && operation.immutable_in.is_empty() {\n            operation.immutable_out.clear();\n        }\n' + B['CLONE'].replace('operation: self.operation.clone()', 'operation'))
bug('c20-clone-from-part', 'C20', SUB=[(B['CLONE'], B['CLONE'] + '''    }

    fn clone_from(&mut self, source: &Self) {
        self.operation.clone_from(&source.operation);
        self.defined_seals.clone_from(&source.defined_seals);
        if source.witness.is_some() {
            self.witness.clone_from(&source.witness);
        }
''')])
# --- unsafe code
bug('c22-cfg', 'C22', LSUB=[('    unsafe_code,\n', '')], AUTH=SB['AUTH'].replace('shortened_id.copy_from_slice(&id[0..30]);', '''#[cfg(feature = "prime")]
            unsafe { core::ptr::copy_nonoverlapping(id.as_ptr(), shortened_id.as_mut_ptr(), 30) };
            #[cfg(not(feature = "prime"))]
            shortened_id.copy_from_slice(&id[0..30]);'''))
bug('c22-release', 'C22', LSUB=[('    unsafe_code,\n', '')], MATCH=rep('MATCH', ('            if !matching {', '            #[cfg(not(debug_assertions))]\n            unsafe { core::hint::assert_unchecked(reported.len() <= 0xFFFF) };\n            if !matching {')))
bug('c22-extern', 'C22', LSUB=[('    unsafe_code,\n', '')], ITEMS='''
unsafe extern "C" {
    #[allow(dead_code)]
    safe fn abs(x: i32) -> i32;
}
''')
bug('c22-trait', 'C22', LSUB=[('    unsafe_code,\n', '')], ITEMS='''
#[allow(dead_code)]
unsafe trait Plain {}
''')
bug('c22-fn', 'C22', LSUB=[('    unsafe_code,\n', '')], ITEMS='''
impl<Seal: RgbSeal> OperationSeals<Seal> {
    /// Assigns the witness.
    ///
    /// # Safety
    /// The witness must be of the operation.
    pub unsafe fn set_witness(&mut self, witness: SealWitness<Seal>) { self.witness = Some(witness) }
}
''')
bug('c22-union', 'C22', LSUB=[('    unsafe_code,\n', '')], AUTH='''            union Cut {
                id: [u8; 32],
                token: [u8; 30],
            }
            let cut = Cut { id: self.commit_id().to_byte_array() };
            AuthToken::from_byte_array(unsafe { cut.token })
''')
bug('c22-export', 'C22', LSUB=[('    unsafe_code,\n', '')], ITEMS='''
/// The version.
#[unsafe(no_mangle)]
pub extern "C" fn rgbcore_version() -> u8 { 12 }
''')
# --- who can verify
bug('c21-sized', 'C21', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', 'impl<Seal: RgbSeal, C: ContractApi<Seal>> ContractVerify<Seal> for C {}')])
bug('c21-clone', 'C21', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', 'impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized + Send> ContractVerify<Seal> for C {}')])
bug('c21-seal', 'C21', SUB=[('impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}', 'impl<Seal: RgbSeal<WitnessId: Send>, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}')])
bug('c21-reader-send', 'C21', SUB=[('    fn evaluate<R: ReadOperation<Seal = Seal>>(', '    fn evaluate<R: ReadOperation<Seal = Seal> + Send>(')])
bug('c21-after', 'C21', SUB=[('    fn apply_operation(&mut self, op: VerifiedOperation);\n', '    fn apply_operation(&mut self, op: VerifiedOperation);\n\n    /// Called before an operation is checked.\n    fn begin_operation(&mut self, _op: &mut Operation) {}\n')], GEN=B['GEN'] + '            self.begin_operation(&mut block.operation);\n')
bug('c21-hook-skip', 'C21', SUB=[('    fn is_known(&self, opid: Opid) -> bool;\n', '    fn is_known(&self, opid: Opid) -> bool;\n\n    /// Whether the witness of an operation has been verified by the client.\n    fn is_witnessed(&self, _opid: Opid) -> bool { false }\n')],
    WIT=rep('WIT', ('                witness\n                    .verify_seals_closing', '                if !self.is_witnessed(opid) {\n                witness\n                    .verify_seals_closing'), ('opid, e))?;\n', 'opid, e))?;\n                }\n')))
bug('c21-errors', 'C21', SUB=[('    fn is_known(&self, opid: Opid) -> bool;\n', '    fn is_known(&self, opid: Opid) -> bool;\n\n    /// Decides on unknown seals.\n    fn unknown_seal(&self, _addr: CellAddr) -> Option<Seal> { None }\n')],
    CLOSED=rep('CLOSED', ('.remove(&input.addr)\n', '.remove(&input.addr)\n                    .or_else(|| self.unknown_seal(input.addr))\n')))
# --- encodings
bug('c19-serde-alias', 'C19', SUB=[('    /// An optional witness for', '    #[cfg_attr(feature = "serde", serde(rename(serialize = "sealWitness")))]\n    /// An optional witness for')])
