"""Variants which break a property: texts of errors."""
from base import B, SB, EVAL
VARIANTS = {}


def bug(name, *want, **kw):
    kw['WANT'] = want
    VARIANTS[name] = kw


DISP = '''impl<Seal: RgbSeal> core::fmt::Display for VerificationError<Seal> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        match self {
            Self::Stream(e) => write!(f, "error reading the consignment stream.\\nDetails: {e}"),
            Self::NoCodexCommitment => f.write_str("genesis does not commit to the codex id; a wrong contract genesis is used."),
            Self::NoWitness(opid) => write!(f, "no witness known for the operation {opid}."),
            Self::SealsNotClosed(id, opid, e) => write!(
                f,
                "single-use seals are not closed properly with witness {id} for operation {opid}.\\nDetails: {e}"
            ),
            Self::SealUnknown(addr) => write!(f, "unknown seal definition for cell address {addr}."),
            Self::SealsDefinitionMismatch { opid, reported, defined, sources } => write!(
                f,
                "seals, reported to be defined by the operation {opid}, do match the assignments in the operation.\\nActual \\
                 operation seals from the assignments: {defined:#?}\\nReported seals: {reported:#?}\\nSources for the \\
                 reported seals: {sources:#?}"
            ),
            Self::Vm(e) => write!(f, "{e}"),
        }
    }
}

// We need manual implementation since'''


def manual(*subs):
    t = DISP
    for a, b in subs:
        assert a in t, a
        t = t.replace(a, b)
    return [('#[derive(Display, Error, From)]\n#[display(doc_comments)]\npub enum', '#[derive(Error, From)]\npub enum'),
            ('    #[from]\n    #[display(inner)]\n', '    #[from]\n'), ('// We need manual implementation since', t)]


bug('c26-stream', 'C26', SUB=[('    /// Details: {0}\n    Stream', '    /// The details are in the source of the error.\n    Stream')])
bug('c26-vm', 'C26', SUB=[('    /// Eror returned by the virtual machine script.\n    #[from]\n    #[display(inner)]', '    /// error returned by the virtual machine script.\n    #[from]')])
bug('c26-debug', 'C26', SUB=[('{ write!(f, "{}", self) }', '{ f.write_str("VerificationError") }')])
bug('c26-debug-head', 'C26', SUB=[('{ write!(f, "{}", self) }', '''{
        let text = self.to_string();
        f.write_str(text.lines().next().unwrap_or_default())
    }''')])
bug('c26-debug-inner', 'C26', SUB=[('{ write!(f, "{}", self) }', '''{
        match self {
            Self::Vm(_) => f.write_str("virtual machine error"),
            _ => write!(f, "{}", self),
        }
    }''')])
bug('c26-sources', 'C26', SUB=[('    ///\n    /// Sources for the reported seals: {sources:#?}\n', '')])
bug('c26-swap', 'C26', SUB=[('assignments: {defined:#?}', 'assignments: {reported:#?}'), ('Reported seals: {reported:#?}', 'Reported seals: {defined:#?}')])
bug('c26-closed-swap', 'C26', SUB=[('with witness {0} for operation {1}', 'with witness {1} for operation {0}')])
bug('c26-twice', 'C26', SUB=[('with witness {0} for operation {1}', 'with witness {1} for operation {1}')])
bug('c26-details', 'C26', SUB=[('    /// Details: {2}\n', '    /// Details: the seals are not closed\n')])
bug('c26-precision', 'C26', SUB=[('    /// Details: {0}\n    Stream', '    /// Details: {0:.120}\n    Stream')])
bug('c26-count', 'C26', SUB=manual(('reported seals: {sources:#?}"', 'reported seals: {}",\n sources.len()')))
bug('c26-keys', 'C26', SUB=manual(('reported seals: {sources:#?}"', 'reported seals: {:?}",\n sources.keys()')))
bug('c26-many', 'C26', SUB=manual(('            Self::SealsDefinitionMismatch {', '''            Self::SealsDefinitionMismatch { opid, reported, .. } if reported.len() > 64 => {
                write!(f, "too many seals reported for the operation {opid}: {reported:#?}")
            }
            Self::SealsDefinitionMismatch {''')))
bug('c26-alternate', 'C26', SUB=manual(('            Self::Stream(e) =>', '''            Self::Stream(_) if f.alternate() => f.write_str("error reading the consignment stream."),
            Self::Stream(e) =>''')))
bug('c26-source', 'C26', SUB=manual(('            Self::Stream(e) =>', '''            Self::Stream(e) if e.source().is_some() => write!(f, "error reading the consignment stream: {}", e.source().unwrap()),
            Self::Stream(e) =>''')))
bug('c26-empty-sources', 'C26', SUB=manual(('            Self::SealsDefinitionMismatch {', '''            Self::SealsDefinitionMismatch { opid, defined, sources, .. } if sources.is_empty() => {
                write!(f, "the operation {opid} reports no seals for {defined:#?}")
            }
            Self::SealsDefinitionMismatch {''')))
bug('c26-panic', 'C16', SUB=manual(('"no witness known for the operation {opid}.")', '"no witness known for the operation {}.", &opid.to_string()[..64])')))
bug('c26-first', 'C26', SUB=manual(('            Self::SealsDefinitionMismatch {', '''            Self::SealsDefinitionMismatch { opid, reported, defined, sources } if reported.len() == 1 => {
                let first = reported.first();
                write!(f, "operation {opid}: {first:?} {defined:#?} {sources:#?}")
            }
            Self::SealsDefinitionMismatch {''')))
bug('c26-cell', 'C26', SUB=manual(('"unknown seal definition for cell address {addr}."', '"unknown seal definition for cell {} of an operation.", addr.pos')))
# ---- C19
bug('c19-lib', 'C19', SUB=[('#[strict_type(lib = LIB_NAME_RGB)]', '#[strict_type(lib = "RGBCore")]')])
bug('c19-lib2', 'C19', FILES={'src/lib.rs': lambda out: out['src/lib.rs'].replace('LIB_NAME_RGB: &str = "RGB"', 'LIB_NAME_RGB: &str = "RGBContract"')})
bug('c19-name', 'C19', SUB=[('#[strict_type(lib = LIB_NAME_RGB)]', '#[strict_type(lib = LIB_NAME_RGB, rename = "OperationSeal")]')])
STRICT = '''impl<Seal: RgbSeal> strict_encoding::StrictType for OperationSeals<Seal> {
    const STRICT_LIB_NAME: &'static str = LIB_NAME_RGB;
}
impl<Seal: RgbSeal> strict_encoding::StrictProduct for OperationSeals<Seal> {}
impl<Seal: RgbSeal> strict_encoding::StrictStruct for OperationSeals<Seal> {
    const ALL_FIELDS: &'static [&'static str] = &["operation", "%s", "witness"];
}

/// Provider which reads an operation'''
DER = ('#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]', '#[derive(StrictDumb, StrictEncode, StrictDecode)]')
bug('c19-fields', 'C19', SUB=[DER, ('/// Provider which reads an operation', STRICT % 'defined_seals')])
