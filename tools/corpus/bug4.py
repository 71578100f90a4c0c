"""Variants which break a property: encodings written by hand."""
from base import B, SB, EVAL
import ok6
from ok6 import SERDE, SER, DE, RAW, NEXT
VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


def by_hand(*subs, ser=None):
    t = ser or DE
    for a, b in subs:
        assert a in t, a
        t = t.replace(a, b)
    return [(SERDE, SERDE.replace('Serialize, Deserialize)', 'Deserialize)' if ser else 'Serialize)')), (NEXT, t + NEXT)]


bug('c19-de-no-seals', 'C19', SUB=by_hand(('defined_seals: raw.defined_seals', 'defined_seals: if raw.witness.is_some() { raw.defined_seals } else { Default::default() }')))
bug('c19-de-refuse', 'C19', SUB=by_hand(('        Ok(OperationSeals {', '''        if raw.witness.is_none() && !raw.operation.destructible_in.is_empty() {
            return Err(serde::de::Error::custom("operation without witness"));
        }
        Ok(OperationSeals {''')))
bug('c19-de-alter', 'C19', SUB=by_hand(('let raw =', 'let mut raw ='), ('        Ok(OperationSeals {', '''        if raw.defined_seals.is_empty() {
            raw.operation.call_id = 0;
        }
        Ok(OperationSeals {''')))
bug('c19-de-default', 'C19', SUB=by_hand(('    defined_seals: SmallOrdMap<u16, Seal::Definition>,', '    #[serde(default)]\n    defined_seals: SmallOrdMap<u16, Seal::Definition>,')))
bug('c19-from-drop', 'C19', SUB=[(SERDE, SERDE.replace('rename_all', 'from = "Raw<Seal>", rename_all')), (NEXT, RAW + '''#[cfg(feature = "serde")]
impl<Seal: RgbSeal> From<Raw<Seal>> for OperationSeals<Seal> {
    fn from(raw: Raw<Seal>) -> Self {
        let witness = if raw.operation.destructible_in.is_empty() { None } else { raw.witness };
        OperationSeals { operation: raw.operation, defined_seals: raw.defined_seals, witness }
    }
}

''' + NEXT)])
bug('c19-try-from', 'C19', SUB=[(SERDE, SERDE.replace('rename_all', 'try_from = "Raw<Seal>", rename_all')), (NEXT, RAW + '''#[cfg(feature = "serde")]
impl<Seal: RgbSeal> TryFrom<Raw<Seal>> for OperationSeals<Seal> {
    type Error = &'static str;
    fn try_from(raw: Raw<Seal>) -> Result<Self, &'static str> {
        if raw.defined_seals.len() > raw.operation.destructible_out.len() {
            return Err("excessive seals");
        }
        Ok(OperationSeals { operation: raw.operation, defined_seals: raw.defined_seals, witness: raw.witness })
    }
}

''' + NEXT)])
bug('c19-ser-some', 'C19', SUB=by_hand(('        s.serialize_field("witness", &self.witness)?;\n', '        if !self.operation.destructible_in.is_empty() {\n            s.serialize_field("witness", &self.witness)?;\n        }\n'), ser=SER))
bug('c19-ser-name', 'C19', SUB=by_hand(('"definedSeals"', '"seals"'), ser=SER))
bug('c19-ser-order', ser=None, SUB=[]) if False else None
bug('c19-ser-sort', 'C19', SUB=by_hand(('        let mut s =', '''        let mut operation = self.operation.clone();
        if self.defined_seals.is_empty() {
            operation.call_id = 0;
        }
        let mut s ='''), ('&self.operation)', '&operation)'), ser=SER))
bug('c19-ser-ok', 'C19', SUB=by_hand(('&self.defined_seals)?;', '&self.defined_seals).ok();'), ser=SER))
bug('c19-ser-let', 'C19', SUB=by_hand(('s.serialize_field("witness", &self.witness)?;', 'let _ = s.serialize_field("witness", &self.witness);'), ser=SER))
bug('c19-ser-count', 'C19', SUB=by_hand(('"OperationSeals", 3)', '"OperationSeals", 2)'), ser=SER))
bug('c19-ser-typename', 'C19', SUB=[(SERDE, SERDE.replace('rename_all', 'rename(serialize = "Operation"), rename_all'))])
bug('c19-ser-rename', 'C19', SUB=[(SERDE, SERDE.replace('rename_all = "camelCase"', 'rename_all(serialize = "camelCase", deserialize = "snake_case")'))])
# ---- C17
bug('c17-option-env', 'C17', SUB=[('            if !matching {\n', '            if !matching && option_env!("RGB_LAX").is_none() {\n')])
bug('c21-trusted-reader', 'C21', SUB=[('''    /// Reads an operation and its seals from a consignment stream and init''', '''    /// Whether the source of the stream is trusted.
    fn trusted(&self) -> bool { false }

    /// Reads an operation and its seals from a consignment stream and init'''), ('            if !matching {\n', '            if !matching && !reader.trusted() {\n')])
bug('c21-relaxed', 'C21', SUB=[('''    fn contract_id(&self) -> ContractId;
''', '''    fn contract_id(&self) -> ContractId;

    /// Level of verification.
    const LEVEL: u8 = 3;
'''), ('            if !matching {\n', '            if !matching && Self::LEVEL > 2 {\n')])
