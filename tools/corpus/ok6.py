"""Variants with the same behaviour: texts of errors and more."""
from base import B, SB, EVAL
import bug3
VARIANTS = {}


def ok(name, **kw):
    VARIANTS[name] = kw


manual = bug3.manual
ok('display-writes', SUB=manual(('''=> write!(
                f,
                "single-use seals are not closed properly with witness {id} for operation {opid}.\\nDetails: {e}"
            ),''', '''=> {
                f.write_str("single-use seals are not closed properly")?;
                write!(f, " with witness {id}")?;
                write!(f, " for operation {opid}.\\n")?;
                write!(f, "Details: {e}")
            }''')))
ok('display-helper', SUB=manual(('''            Self::Vm(e) => write!(f, "{e}"),''', '''            Self::Vm(e) => vm_text(e, f),'''), ('impl<Seal: RgbSeal> core::fmt::Display', '''fn vm_text(e: &CallError, f: &mut Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(e, f) }

impl<Seal: RgbSeal> core::fmt::Display''')))
ok('display-string', SUB=manual(('''            Self::NoWitness(opid) => write!(f, "no witness known for the operation {opid}."),''', '''            Self::NoWitness(opid) => {
                let text = alloc::format!("no witness known for the operation {opid}.");
                f.write_str(text.as_str())
            }''')))
ok('display-pad', SUB=manual(('write!(f, "no witness known for the operation {opid}.")', 'f.write_fmt(format_args!("no witness known for the operation {}.", opid))')))
ok('display-push', SUB=manual(('''            Self::SealUnknown(addr) => write!(f, "unknown seal definition for cell address {addr}."),''', '''            Self::SealUnknown(addr) => {
                let mut text = String::from("unknown seal definition for cell address ");
                text.push_str(&addr.to_string());
                text.push('.');
                f.write_str(&text)
            }''')))
t = bug3.DISP
head, tail = t.split('            Self::SealsDefinitionMismatch {')
head = head.replace('=> write!(f,', '=> return write!(f,').replace('=> f.write_str', '=> return f.write_str').replace('=> write!(\n', '=> return write!(\n')
t = head.replace('        match self {', '        let (op, rep, def, src) = match self {') + '''            Self::SealsDefinitionMismatch { opid, reported, defined, sources } => (opid, reported, defined, sources),
            Self::Vm(e) => return write!(f, "{e}"),
        };
        write!(f, "seals, reported to be defined by the operation {op}, do match the assignments in the operation.\\n")?;
        writeln!(f, "Actual operation seals from the assignments: {def:#?}\\n")?;
        writeln!(f, "Reported seals: {rep:#?}\\n")?;
        write!(f, "Sources for the reported seals: {src:#?}")
    }
}

// We need manual implementation since'''
ok('display-locals', SUB=manual()[:-1] + [('// We need manual implementation since', t)])
ok('strict-type-manual', SUB=[bug3.DER, ('/// Provider which reads an operation', bug3.STRICT % 'definedSeals')])
ok('strict-name', SUB=[('#[strict_type(lib = LIB_NAME_RGB)]', '#[strict_type(lib = LIB_NAME_RGB, rename = "OperationSeals")]')])
ok('lib-name-moved', FILES={'src/lib.rs': lambda out: out['src/lib.rs'].replace('pub const LIB_NAME_RGB: &str = "RGB";', 'pub const LIB_NAME_RGB: &str = names::RGB;\n\nmod names {\n    pub const RGB: &str = "RGB";\n}')})
SERDE = '''#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(
        rename_all = "camelCase",
        bound = "Seal::Definition: serde::Serialize + for<'d> serde::Deserialize<'d>, Seal::PubWitness: \\
                 serde::Serialize + for<'d> serde::Deserialize<'d>, Seal::CliWitness: serde::Serialize + for<'d> \\
                 serde::Deserialize<'d>"
    )
)]
'''
BOUND = '''bound = "Seal::Definition: serde::Serialize + for<'d> serde::Deserialize<'d>, Seal::PubWitness: serde::Serialize + for<'d> serde::Deserialize<'d>, Seal::CliWitness: serde::Serialize + for<'d> serde::Deserialize<'d>"'''
NEXT = '/// Provider which reads an operation'
IMPL_BOUND = '''where
    Seal::Definition: serde::Serialize + for<'d> serde::Deserialize<'d>,
    Seal::PubWitness: serde::Serialize + for<'d> serde::Deserialize<'d>,
    Seal::CliWitness: serde::Serialize + for<'d> serde::Deserialize<'d>,
'''
SER = '''#[cfg(feature = "serde")]
impl<Seal: RgbSeal> serde::Serialize for OperationSeals<Seal>
''' + IMPL_BOUND + '''{
    fn serialize<Z: serde::Serializer>(&self, serializer: Z) -> Result<Z::Ok, Z::Error> {
        use serde::ser::SerializeStruct;
        let mut s = serializer.serialize_struct("OperationSeals", 3)?;
        s.serialize_field("operation", &self.operation)?;
        s.serialize_field("definedSeals", &self.defined_seals)?;
        s.serialize_field("witness", &self.witness)?;
        s.end()
    }
}

'''
RAW = '''#[cfg(feature = "serde")]
#[derive(Deserialize)]
#[serde(rename = "OperationSeals", rename_all = "camelCase", BOUND)]
struct Raw<Seal: RgbSeal> {
    operation: Operation,
    defined_seals: SmallOrdMap<u16, Seal::Definition>,
    witness: Option<SealWitness<Seal>>,
}

'''.replace('BOUND', BOUND)
DE = RAW + '''#[cfg(feature = "serde")]
impl<'de, Seal: RgbSeal> serde::Deserialize<'de> for OperationSeals<Seal>
''' + IMPL_BOUND + '''{
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let raw = Raw::<Seal>::deserialize(deserializer)?;
        Ok(OperationSeals { operation: raw.operation, defined_seals: raw.defined_seals, witness: raw.witness })
    }
}

'''
ok('serde-rename-each', SUB=[(SERDE, SERDE.replace('        rename_all = "camelCase",\n', '')), ('    pub defined_seals: Small', '    #[cfg_attr(feature = "serde", serde(rename = "definedSeals"))]\n    pub defined_seals: Small')])
ok('serde-rename-both', SUB=[(SERDE, SERDE.replace('rename_all = "camelCase"', 'rename_all(serialize = "camelCase", deserialize = "camelCase")'))])
ok('serde-manual-ser', SUB=[(SERDE, SERDE.replace('Serialize, Deserialize)', 'Deserialize)')), (NEXT, SER + NEXT)])
ok('serde-manual-de', SUB=[(SERDE, SERDE.replace('Serialize, Deserialize)', 'Serialize)')), (NEXT, DE + NEXT)])
ok('serde-from', SUB=[(SERDE, SERDE.replace('rename_all', 'from = "Raw<Seal>", rename_all')), (NEXT, RAW + '''#[cfg(feature = "serde")]
impl<Seal: RgbSeal> From<Raw<Seal>> for OperationSeals<Seal> {
    fn from(raw: Raw<Seal>) -> Self {
        OperationSeals { operation: raw.operation, defined_seals: raw.defined_seals, witness: raw.witness }
    }
}

''' + NEXT)])
ok('serde-map-de', SUB=[(SERDE, SERDE.replace('Serialize, Deserialize)', 'Serialize)')), (NEXT, DE.replace('''let raw = Raw::<Seal>::deserialize(deserializer)?;
        Ok(OperationSeals { operation: raw.operation, defined_seals: raw.defined_seals, witness: raw.witness })''', '''Raw::<Seal>::deserialize(deserializer).map(|Raw { operation, defined_seals, witness }| OperationSeals { operation, defined_seals, witness })''') + NEXT)])
ok('serde-split-attr', SUB=[(SERDE, '#[cfg_attr(feature = "serde", derive(Serialize))]\n#[cfg_attr(feature = "serde", derive(Deserialize))]\n' + SERDE.replace('    derive(Serialize, Deserialize),\n', ''))])
ok('strict-split', SUB=[('#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]', '#[derive(StrictDumb, StrictType)]\n#[derive(StrictDecode, StrictEncode)]')])
ok('version-env', SUB=[('/// Errors returned from the verification.\n', '/// Version of the library.\n#[allow(dead_code)]\nconst VERSION: &str = env!("CARGO_PKG_VERSION");\n\n/// Errors returned from the verification.\n')])
