"""Compile-fail witnesses for C21: programs of a client that give their own verification procedure must not build, and the
control which uses the library's procedure for the same types must."""
import json, os, shutil
import facts as F

TOML = '''[package]
name = "witness"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rgb-core = { path = "%s" }
ultrasonic = "0.12.0-rc.2"
bp-core = "0.12.0-rc.2"
amplify = "~4.9.0"
'''

PRE = '''#![allow(dead_code, unused_imports)]
use amplify::confinement::SmallOrdMap;
use bp::seals::{TxoSeal, WTxoSeal};
use rgbcore::{ContractApi, ContractVerify, OperationSeals, ReadOperation, RgbSeal, VerificationError};
use ultrasonic::aluvm::alu::{Lib, LibId};
use ultrasonic::{CellAddr, Codex, ContractId, LibRepo, Memory, Opid, StateCell, StateValue, VerifiedOperation};
struct L;
impl LibRepo for L { fn get_lib(&self, _: LibId) -> Option<&Lib> { None } }
impl Memory for L {
    fn destructible(&self, _: CellAddr) -> Option<StateCell> { None }
    fn immutable(&self, _: CellAddr) -> Option<StateValue> { None }
}
macro_rules! api { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> ContractApi<TxoSeal> for $t {
        fn contract_id(&self) -> ContractId { todo!() }
        fn codex(&self) -> &Codex { todo!() }
        fn repo(&self) -> &impl LibRepo { &L }
        fn memory(&self) -> &impl Memory { &L }
        fn is_known(&self, _: Opid) -> bool { todo!() }
        fn apply_operation(&mut self, _: VerifiedOperation) {}
        fn apply_seals(&mut self, _: Opid, _: SmallOrdMap<u16, WTxoSeal>) {}
        fn apply_witness(&mut self, _: Opid, _: rgbcore::SealWitness<TxoSeal>) {}
    }
} }
macro_rules! own { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> ContractVerify<TxoSeal> for $t {
        fn evaluate<R: ReadOperation<Seal = TxoSeal>>(&mut self, _: R) -> Result<(), VerificationError<TxoSeal>> { Ok(()) }
    }
} }
macro_rules! weak { ([$($g:tt)*] $t:ty) => { impl<$($g)*> ContractVerify<TxoSeal> for $t {} } }
struct Plain;
struct Gen<T>(T);
struct Unsized { a: u8, tail: [u8] }
struct Life<'a>(&'a u8);
api!([] Plain); api!([T] Gen<T>); api!([] Unsized); api!(['a] Life<'a>);
api!([] Box<Plain>);
trait Obj {}
api!([] dyn Obj);
fn uses<C: ContractApi<TxoSeal> + ?Sized, R: ReadOperation<Seal = TxoSeal>>(c: &mut C, r: R) { let _ = c.evaluate(r); }
fn plain<R: ReadOperation<Seal = TxoSeal>>(c: &mut Plain, r: R) { let _ = c.evaluate(r); }
fn tail<R: ReadOperation<Seal = TxoSeal>>(c: &mut Unsized, r: R) { let _ = c.evaluate(r); }
fn main() {}
'''

CASES = [('sized', 'own!([] Plain);'), ('generic', 'own!([T] Gen<T>);'), ('unsized', 'own!([] Unsized);'),
         ('lifetime', "own!(['a] Life<'a>);"), ('dyn', 'own!([] dyn Obj);'), ('boxed', 'own!([] Box<Plain>);'),
         ('marker', 'weak!([] Plain);'), ('marker-unsized', 'weak!([] Unsized);')]


def run():
    d = os.path.join(F.BUILD, 'witness.%d' % os.getpid())
    bins = os.path.join(d, 'src', 'bin')
    os.makedirs(bins)
    try:
        with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
            f.write(TOML % F.REPO)
        shutil.copy(os.path.join(F.REPO, 'Cargo.lock'), d)
        for n, t in CASES + [('control', '')]:
            with open(os.path.join(bins, n + '.rs'), 'w') as f:
                f.write(PRE + t + '\n')
        e = F.env()
        e.update(CARGO_TARGET_DIR=os.path.join(F.BUILD, 'witness-target'), RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0')
        info, bad = [], {}
        codes = {}
        rc, out = F.run(['cargo', 'check', '--offline', '--keep-going', '--bins', '--message-format=json'], cwd=d, env=e)
        done = set()
        for l in out.splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact':
                done.add(m['target']['name'])
            elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                codes.setdefault(m['target']['name'], []).append(((m['message'].get('code') or {}).get('code'), m['message']['message']))
        if 'control' not in done:
            c = codes.get('control') or [(None, out[-600:])]
            if c[0][0] in ('E0277', 'E0599', 'E0308'):
                bad['witness-control'] = 'the verification procedure is not available for every contract type: %s' % c[0][1]
            else:
                # the interface itself has changed: the witnesses say nothing
                return ['the control does not build (%s); the witnesses were left out' % (c[0][1],)], {}
        for n, t in CASES:
            c = [x for x in codes.get(n, ()) if x[0]]
            info.append('%s: %s' % (n, 'builds' if n in done else ', '.join(sorted({x[0] for x in c}))))
            if n in done:
                bad['witness-' + n] = 'a client can give its own verification procedure: the program with %s builds' % t
            elif 'control' in done and not any(x[0] in ('E0119', 'E0407', 'E0117') or 'ContractVerify' in x[1] for x in c):
                bad['witness-' + n] = 'the program with %s is rejected for another reason: %s' % (t, c[:1])
        return info, bad
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    print(run())
