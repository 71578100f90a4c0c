"""Bugs in declarations: types of fields, bounds, attributes, conversions of errors."""
from base import B, SB

VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


D = '    pub defined_seals: SmallOrdMap<u16, Seal::Definition>,\n'
bug('decl-witness-vec', 'C19', SUB=[('    pub witness: Option<SealWitness<Seal>>,\n', '    #[strict_type(skip)]\n    pub witness: Option<SealWitness<Seal>>,\n')])
bug('decl-swap', 'C19', SUB=[('    /// The operation.\n    pub operation: Operation,\n    /// Seals defined by an operation.\n' + D, '    /// Seals defined by an operation.\n' + D + '    /// The operation.\n    pub operation: Operation,\n')])
bug('decl-flatten', 'C19', SUB=[('    pub operation: Operation,\n', '    #[cfg_attr(feature = "serde", serde(flatten))]\n    pub operation: Operation,\n')])
bug('decl-default', 'C19', SUB=[(D, '    #[cfg_attr(feature = "serde", serde(default))]\n' + D)])
bug('decl-skip-none', 'C19', SUB=[('    pub witness: Option<SealWitness<Seal>>,\n', '    #[cfg_attr(feature = "serde", serde(skip_deserializing))]\n    pub witness: Option<SealWitness<Seal>>,\n')])
VARIANTS = {k: v for k, v in VARIANTS.items() if v}
