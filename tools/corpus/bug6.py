"""Breaking variants, sixth series."""
from base import B, SB, EVAL

VARIANTS = {}


def bug(n, want, **kw):
    kw['WANT'] = want
    VARIANTS[n] = kw


def rep(k, *subs):
    t = B.get(k) or SB[k]
    for a, b in subs:
        assert t.count(a) == 1, (k, a, t.count(a))
        t = t.replace(a, b)
    return t


def ev(*subs):
    t = EVAL
    for a, b in subs:
        assert t.count(a) >= 1, a
        t = t.replace(a, b)
    return t


SIG = '-> Result<(), VerificationError<Seal>> {\n' + B['PRE']
TR = 'pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {'
IM = 'impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}'
bug('c21-reader-clone', ('C21',), SUB=[('fn evaluate<R: ReadOperation<Seal = Seal>>', 'fn evaluate<R: ReadOperation<Seal = Seal> + Clone>')])
bug('c21-seal-hash', ('C21',), SUB=[(TR, 'pub trait ContractVerify<Seal: RgbSeal + core::hash::Hash>: ContractApi<Seal> {'), (IM, IM.replace('Seal: RgbSeal', 'Seal: RgbSeal + core::hash::Hash'))])
bug('c21-seal-hash-method', ('C21',), SUB=[(SIG, '-> Result<(), VerificationError<Seal>>\n    where Seal::Definition: core::hash::Hash {\n' + B['PRE'])])
bug('c21-witness-clone', ('C21',), SUB=[(SIG, '-> Result<(), VerificationError<Seal>>\n    where Seal::PubWitness: Clone {\n' + B['PRE'])])
bug('c21-seal-static', ('C21',), SUB=[(SIG, "-> Result<(), VerificationError<Seal>>\n    where Seal: 'static {\n" + B['PRE'])])
bug('c21-impl-seal-hash', ('C21',), SUB=[(IM, IM.replace('Seal: RgbSeal', 'Seal: RgbSeal + core::hash::Hash'))])
bug('c21-method-const', ('C21',), SUB=[(SIG, '-> Result<(), VerificationError<Seal>>\n    where [u8; 4]: PartialEq<Seal> {\n' + B['PRE'])])
