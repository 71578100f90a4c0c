#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the fields stay uniform)."""
import json, os
V = "src/verify.rs"; S = "src/seals.rs"; L = "src/lib.rs"
EV = "ContractVerify::evaluate in src/verify.rs"
TESTS = ("The 13 unit tests run fixed one- and two-operation histories with one contract, one seal type and one "
         "hand-made witness; no test has a successful non-genesis operation at all. ")
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))
PROPS = [
P("C01", "A history must open with the genesis of the evaluated contract",
  "Evaluation accepts the first operation of a history only if that operation commits to the codex of the contract being evaluated and is the operation which the contract itself recognises as its (already known) genesis. A history opening with anything else is rejected before the contract is told anything.",
  ["inputs"], "all contracts, all first operations (any codex id, any genesis data), all seal protocols",
  TESTS + "One test changes every byte of the codex id at once; partial matches, other contracts' genesis operations and the interplay with the seals of the first operation are never tried.",
  [V], [("codex commitment comparison on the first operation", EV), ("knownness query on the operation id", EV)],
  [("first-operation flag", "whether the operation just read is the first of the stream", EV)], ["result of evaluate", "ContractApi callbacks"]),
P("C02", "One operation id everywhere, computed from the exact data received",
  "For every operation a single operation id is used for the knownness query, as the message the witness has to commit to, as the address of the cells the operation defines, in errors and in everything reported to the contract. That id is the commitment to exactly the operation data received, where in the first operation (only) the contract id field is first replaced by the id of the evaluated contract.",
  ["inputs", "histories"], "all operations at all positions of the stream",
  TESTS + "The tests fix a handful of ids and never compare the ids handed to the different consumers.",
  [V], [("contract id substitution and opid computation", EV)], [("opid", "id of the current operation", EV)], ["arguments of ContractApi callbacks", "witness message", "error payloads"]),
P("C03", "Only operations verified by the contract's codex are applied",
  "Every operation that is neither the first of the history nor already known to the contract is verified by the contract's own codex - against the id of the evaluated contract, the current contract memory and the contract's library repository - and, if the history goes on, is handed to the contract for application exactly once, as the result of that very verification. No other operation is ever handed over for application, and a failed verification rejects the history.",
  ["inputs", "histories"], "all operations, codexes, memories and library sets",
  TESTS + "No test has an operation rejected or accepted by the virtual machine.",
  [V], [("Codex::verify call", EV), ("apply_operation call", EV)], [("verified operation", "result of the codex verification waiting to be applied", EV)], ["ContractApi::apply_operation"]),
P("C04", "Known operations and genesis are never re-verified or re-applied",
  "An operation the contract reports as already known is neither run through the codex again nor handed over for application a second time, and the first operation of a history is never handed over for application. Knownness is decided for the id of the operation at hand, before anything about that operation is reported to the contract.",
  ["histories", "inputs"], "all histories mixing known and new operations in any order, including repeated operations",
  TESTS + "Only genesis is ever known in the tests, so skipping for other operations is never exercised.",
  [V], [("is_known query", EV)], [], ["ContractApi::apply_operation", "Memory reads"]),
P("C05", "Reported seals must match the very cells they are reported for",
  "An operation is accepted only if every seal definition reported with it for output position N hashes to the authorization token which the operation itself assigns to its destructible output number N. A definition reported for a position that does not exist, or that belongs to another output of the operation, rejects the history.",
  ["inputs"], "all operations, all maps from output positions to seal definitions",
  TESTS + "Tests have one output and one definition, so they cannot tell a per-position match from a set-wise match, nor out-of-range positions.",
  [V, S], [("comparison of reported definitions with operation-defined auth tokens", EV), ("auth_token", S)], [], ["SealsDefinitionMismatch error", "ContractApi::apply_seals"]),
P("C06", "Every destroyed cell has its seal closed over the operation",
  "An operation is accepted only if, for each of its destructible inputs, the seal of that cell was defined earlier in the same history and the witness supplied with the operation proves all those seals closed over the id of this operation. An operation with at least one destructible input and no witness is always rejected, including operations already known to the contract.",
  ["inputs", "histories"], "all operations with any number of inputs, all witnesses, known or not",
  TESTS + "Tests only show single-input rejections; several inputs, partially closed inputs and accepted closings are never run.",
  [V], [("collection of the closed seals", EV), ("verify_seals_closing call and missing-witness check", EV)], [("closed_seals", "seals of all inputs of the current operation", EV)], ["SealsNotClosed, NoWitness and SealUnknown errors"]),
P("C07", "A seal can be used only once",
  "Within a history the seal of a cell is consumed by the operation input that spends it: a second input referring to the same cell - in the same operation or in a later one, with no redefinition in between - is rejected as spending an unknown seal. Every input consumes exactly the seal of the cell it addresses and no other.",
  ["inputs", "histories"], "all operations with repeated inputs, all sequences of operations spending the same cell",
  TESTS + "No test spends a cell twice.",
  [V], [("removal of the input's seal from the map of known seals", EV)], [("seals", "map of the seals which can be spent, by cell address", EV)], ["SealUnknown error"]),
P("C08", "Every supplied witness is verified before use",
  "Any witness supplied with an operation - including the first operation, operations known to the contract and operations without inputs - is verified against the id of that operation before it is reported to the contract and before any seal resolved with its id can be spent, and a failed verification rejects the history. The seals it is verified with are exactly those of the operation's inputs.",
  ["inputs", "histories"], "all operations and witnesses in any combination",
  TESTS + "Witnesses only appear in tests with a new operation having one input.",
  [V], [("verify_seals_closing call", EV)], [], ["ContractApi::apply_witness", "SealsNotClosed error"]),
P("C09", "Spendable seals are exactly those defined by accepted operations",
  "Accepting an operation makes a cell it defines spendable if and only if a definition was reported for it and yields a complete seal: a self-contained definition always does and is used as is; a witness-relative definition does so exactly when a witness is supplied with the operation, and is resolved with the id of that witness. The seal is registered under the operation id and the reported output position, and the set of spendable seals changes in no other way except for seals consumed by inputs.",
  ["inputs", "histories"], "all sets of definitions (self-contained and witness-relative mixed), with and without a witness",
  TESTS + "No test spends a seal registered through a witness, or several seals of one operation.",
  [V], [("collection of seal sources and extension of the seals map", EV)], [("seals", "map of the seals which can be spent, by cell address", EV)], ["result of evaluate for later operations", "SealUnknown error"]),
P("C10", "A rejected operation leaves no trace in the contract",
  "When an operation is rejected, for any reason, no callback changing the contract state was invoked for that operation, and evaluation stops at once: no further operation is read or processed. What the contract was told about previously accepted operations is not affected.",
  ["inputs", "histories", "fault_sequences"], "all rejection causes at all positions of the history, including failures of the stream",
  TESTS + "Tests with rejections do not look at the contract afterwards.",
  [V], [("order of checks and callbacks", EV)], [], ["ContractApi callbacks"]),
P("C11", "Accepted operations are reported completely, once and in order",
  "For each accepted operation the contract receives the supplied witness if and only if there is one, then the verified operation if it is new, then the reported seal definitions if and only if there is at least one; each exactly once, with the id of that operation and with the content received, unmodified. This holds equally for known operations and genesis, except for the application of the operation itself.",
  ["inputs", "histories"], "all accepted operations: known or new, with or without witness, with or without definitions",
  TESTS + "The tests compare callbacks only for a lone genesis with nothing to report.",
  [V], [("apply_witness, apply_operation and apply_seals calls", EV)], [], ["ContractApi callbacks"]),
P("C12", "Success only after the whole stream; every failure names its cause",
  "Evaluation returns success only after the stream has reported its end without an error; operations are processed in stream order, each read once. Every failure is returned to the caller under the error kind of its actual cause, carrying the offending operation id, cell address, witness id or the underlying error.",
  ["inputs", "histories", "fault_sequences"], "all streams, with read errors at any point, and all rejection causes",
  TESTS + "The test stream is infallible, and most error kinds are produced for one input only.",
  [V], [("read loop and error conversions", EV), ("VerificationError", V)], [], ["result of evaluate"]),
P("C13", "A valid history is never rejected",
  "A history is rejected only for one of these causes: the stream reports an error, the first operation is not the genesis of the contract, a reported seal definition does not match its cell, an input refers to a cell with no spendable seal, the codex rejects a new operation, a witness does not prove the closing of the seals of the inputs, or seals have to be closed and there is no witness. Nothing else about an operation, its position, size or values leads to a rejection.",
  ["inputs", "histories"], "all histories satisfying the rules, of any length and with any values",
  TESTS + "The only accepted histories in tests are the empty one and a lone genesis.",
  [V], [("error exits", EV)], [], ["result of evaluate"]),
P("C14", "An authorization token commits to the complete seal definition",
  "The authorization token of a bitcoin seal definition is the first 30 bytes of the commitment id of that complete definition (primary and fallback part), for every definition value, without exceptions. It always fits the field element it is stored in.",
  ["inputs"], "all seal definitions: every witness-output or external primary outpoint, every fallback or noise value",
  "One test compares the token of a single definition.",
  [S], [("auth_token of the bitcoin seal definition", S)], [], ["RgbSealDef::auth_token"]),
P("C15", "Seal resolution is faithful and its two forms agree",
  "Resolving a bitcoin seal definition yields a seal with the same fallback part, whose primary outpoint is the defined one for a self-contained definition and the same output of the given witness transaction for a witness-relative one. The conversion that takes no witness succeeds exactly for self-contained definitions and then gives the same seal as resolving with any witness id.",
  ["inputs"], "all seal definitions and all witness ids",
  "Tests try output zero and the coinbase outpoint with one witness id.",
  [S], [("resolve and to_src of the bitcoin seal definition", S)], [], ["RgbSealDef::resolve", "RgbSealDef::to_src"]),
P("C16", "Verification never panics on what a consignment contains",
  "No operation, seal definition or witness coming from a consignment can make the library's own verification and seal code panic: bad data lead to an error result. (Panics documented for the codex engine or raised inside the client's own callbacks are outside of this.)",
  ["inputs"], "all streams with arbitrary content, in debug and release builds",
  "Panics hide behind unusual sizes, positions and repetitions that tests do not have.",
  [V, S], [("verification procedure", EV), ("bitcoin seal definition methods", S)], [], ["result of evaluate instead of a panic"]),
P("C17", "Verification depends on nothing but the history and the contract",
  "The outcome of verification and of all seal computations is a function of the stream and of what the contract interface returns: the library's code consults no clock, randomness, environment, file, network, process or thread state, no mutable global and no randomly ordered collection, and keeps no state between evaluations.",
  ["inputs", "configurations"], "all executions on all machines",
  "Tests run on one machine, at one time, in one environment.",
  [V, S], [("all functions of the crate", "src")], [], ["result of evaluate on different machines and at different times"]),
P("C18", "Consensus rules are the same in every build configuration",
  "Every guarantee of verification, of seal computation and of the consensus encoding holds in every combination of the crate's features and in debug as well as in release builds; no check is present in one configuration and absent in another. Each combination builds, and one offering bitcoin seals offers the same seal computations.",
  ["configurations"], "features std, bitcoin, liquid, prime, serde and their combinations; with and without debug assertions",
  "Tests run with all features in one (debug) profile only.",
  [V, S, L, "Cargo.toml"], [("conditional compilation", "src")], [], ["results under different features and profiles"]),
P("C19", "Encoding of an operation with its seals is complete and consistent",
  "The strict (consensus) encoding of an operation with its seals consists of the operation, the defined seals and the optional witness, in this order, with none left out; decoding reads the same parts in the same order into the same places and does not alter, default or reject them by itself. The serde encoding and decoding likewise cover exactly these three parts under matching names; to the strict type system the type is declared as `OperationSeals` of the library `RGB` with exactly these fields.",
  ["inputs"], "all operations, definitions and witnesses",
  "No test encodes or decodes anything.",
  [V], [("derived StrictEncode/StrictDecode and serde implementations of the operation-with-seals type", V)], [], ["encoded bytes", "decoded value"]),
P("C20", "A copy of an operation with its seals is faithful",
  "Cloning an operation with its seals yields the same operation, the same defined seals and the same witness.",
  ["inputs"], "all values, with and without a witness",
  "Tests clone values without a successful witness and without comparing the clone.",
  [V], [("manual Clone implementation", V)], [], ["Clone of the consignment item"]),
P("C21", "Clients cannot replace or weaken the verification procedure",
  "The verification procedure is available for every type implementing the contract interface, for every kind of seal and every reader, and only through the library's own implementation: no client type can provide its own. The contract interface offers the client no way to steer verification other than the documented queries.",
  ["programs"], "all client programs implementing the contract interface",
  "Tests contain one client type and cannot show that no program can override the procedure.",
  [V], [("blanket implementation of ContractVerify", V), ("ContractApi trait", V)], [], ["programs overriding the procedure do not compile"]),
P("C22", "No unsafe code",
  "The library contains no unsafe code of its own (blocks, functions, traits, implementations, foreign items), in any configuration, so its memory safety rests on the compiler and its dependencies alone.",
  ["programs", "configurations"], "all items of the crate in all feature configurations",
  "A property of the program text, not of executions.",
  [V, S, L], [("deny(unsafe_code)", L)], [], ["source"]),
P("C23", "Evaluation of a finite history terminates",
  "Every repetition in the verification and seal code consumes an item of a finite collection of the operation at hand or reads one more item of the stream; hence a finite stream leads to a result after finitely many steps, with no re-reading after the end or after an error.",
  ["inputs", "histories"], "all finite streams",
  "Non-termination shows only on inputs reaching the loop in question.",
  [V, S], [("loops of the verification procedure", EV)], [], ["evaluate returns"]),
P("C24", "Authorization tokens are collision resistant",
  "It is infeasible to find two different seal definitions with the same authorization token.",
  ["inputs"], "all pairs of seal definitions", "A cryptographic claim about SHA-256 truncated to 240 bits.",
  [S], [("auth_token", S)], [], []),
P("C25", "Evaluating the same history again leaves the contract unchanged",
  "Evaluating a history a second time against the contract state that resulted from the first evaluation succeeds and leaves the ledger of that contract as it was.",
  ["histories"], "all valid histories and all client implementations of the contract interface",
  "Needs arbitrary histories and arbitrary client storage.",
  [V], [("skipping of known operations", EV)], [], ["contract state after re-evaluation"]),
P("C26", "The text of a verification error says everything the error carries",
  "Displaying or debug-printing a verification error shows every piece of data the error carries (the stream's error, operation and witness ids, the seal error, the cell address, the defined and reported tokens and the sources of the reported seals, the virtual machine's error). It does so for every kind of error and every value.",
  ["inputs"], "all kinds of errors with arbitrary contents",
  "Tests sample the texts of four of the seven kinds, with one value each.",
  [V], [("VerificationError and its Display and Debug implementations", V)], [], ["text of an error"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2 , p["id"]
        f.write(json.dumps(p) + "\n")
