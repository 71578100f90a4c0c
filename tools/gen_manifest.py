"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = 'abstract interpretation of the compiler\'s MIR (path-sensitive dataflow over all paths between two reads of the stream, loops summarised): '
T = {
 'C01': FLOW + 'codex-commitment and knownness guards dominate every continuation after the first read',
 'C02': FLOW + 'provenance of the operation id at every use, and of the data it is computed from',
 'C03': FLOW + 'must-pass-through of the codex verification and provenance of what is applied',
 'C04': FLOW + 'effects forbidden under the knownness guard',
 'C05': FLOW + 'the per-position token comparison must hold, for an arbitrary reported seal, on every accepting path',
 'C06': FLOW + 'typestate of inputs: every input\'s seal is looked up, collected and handed to the closing check on accepting paths',
 'C07': FLOW + 'typestate of the seal registry: look-ups consume, keyed by the input address',
 'C08': FLOW + 'must-precede analysis of the witness check over every use of the witness',
 'C09': FLOW + 'effect summary of the seal registry compared with the demanded one',
 'C10': FLOW + 'no callback effect on any rejecting path, and no continuation after it',
 'C11': FLOW + 'order, multiplicity and provenance of the callback effects on accepting paths',
 'C12': FLOW + 'success exits only after the end of the stream; provenance of error values',
 'C13': FLOW + 'every rejecting path is guarded by one of the listed causes',
 'C14': 'abstract interpretation of the MIR of the seal functions: symbolic provenance of every byte of the token',
 'C15': 'abstract interpretation of the MIR of the seal functions: provenance of every field, case by case',
 'C16': FLOW + 'reachability of panics, overflows and bounds checks, in the verification procedure and all externally callable functions',
 'C17': 'effect analysis over the call graph, statics and type-checked items of the crate',
 'C18': 'cross-configuration comparison of all rules over 32 feature sets, debug and release',
 'C19': 'provenance analysis of the MIR of the derived/written encoders and decoders (strict and serde)',
 'C20': 'provenance analysis of the MIR of clone',
 'C21': 'trait-coherence and visibility rules over the type-checked items (who may implement, override or steer); compile-fail witnesses in the thorough run',
 'C22': 'lint over the type-checked program: unsafe blocks, functions, traits, implementations, foreign items, linkage attributes',
 'C23': FLOW + 'every loop and recursion is driven by a finite collection or by the stream',
 'C26': 'provenance analysis of the MIR of the formatting implementations: which parts of the error reach the formatter on each path',
}
NOTE_FLOW = ('Decided for all inputs on all paths of the compiled code in each of 64 build configurations, without running it. Trusts rustc\'s '
             'MIR, the models of library functions in sa/models.py and the documented behaviour of the client\'s callbacks and of other crates.')
NOTE = {
 'C14': 'For every definition value in all configurations with bitcoin seals. Trusts the commitment scheme of the dependencies (see C24).',
 'C15': 'For every definition and witness id in all configurations with bitcoin seals. Trusts constructors of the dependencies.',
 'C16': 'Covers panics raised by this crate\'s code and by the library functions it calls directly; panics inside dependencies\' own functions are assumed as documented.',
 'C17': 'Decided for the crate\'s own code and the library functions it names; what dependencies do inside is assumed from their purpose.',
 'C18': 'Two configurations are compared through the violations of all other rules, not instruction by instruction.',
 'C19': 'Decides which parts are written and read, in which order, under which names, and that they are passed on unaltered; the encodings of the parts themselves belong to the dependencies.',
 'C20': 'Clones of the parts are assumed faithful (dependencies).',
 'C21': 'Decided on the type-checked items of all configurations.',
 'C22': 'Decided on the type-checked program of all configurations; code expanded from macros of dependencies is included.',
 'C26': 'Decides which data is handed to the formatter; the texts of the parts themselves belong to the dependencies and to the client. The wording is not fixed.',
 'C23': 'Assumes that each callback of the client and each function of a dependency returns, and that the stream is finite.',
}
NA = {
 'C24': 'A claim on the computational hardness of inverting or colliding a truncated SHA-256; no analysis of the source can decide it. The structural part (the token covers the complete definition, 240 of 256 bits kept) is decided as C14.',
 'C25': 'Depends on the behaviour of the client\'s ledger (is_known, apply_operation, memory) over histories, which is outside the source analysed; the part the library guarantees is decided as C04 and C11.',
}
m = {'version': 1,
     'setup_cmd': 'python3 sa/warm.py',
     'checks': [{'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': T[p], 'level': 'other', 'level_note': NOTE.get(p, NOTE_FLOW)}
                for p in sorted(T)],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'Static analysis over compiler MIR extracted by driver/main.rs (rustc_private); see DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
