#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts can be edited and diffed)."""
import json, os
V, S, L = "src/verify.rs", "src/seals.rs", "src/lib.rs"
EV = "src/verify.rs: ContractVerify::evaluate"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), ):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

LEDGER = ("verdict of evaluation", "ledger callbacks: apply_operation, apply_seals, apply_witness", "consignment reader")

prop("C01", "No state changes hands unless the seals of all its inputs are closed",
     "An operation which consumes state is accepted only if it comes with a witness that closes every one of the "
     "single-use seals protecting its inputs over a message which is exactly the id of that operation. A missing witness, a "
     "witness closing only some of the seals (or another seal, or a seal with another secondary part), a witness over "
     "another message, or an invalid one, attached to any operation at any position, makes the evaluation fail and "
     "leaves no trace of that operation in the ledger; a witness attached to an operation without inputs is verified too.",
     ["inputs", "histories"], "for every consignment, seal protocol, operation (genesis included), number of inputs, witness and position in the consignment",
     "Tests use two or three hand-made operations with one or two inputs over one bitcoin transaction each, and only a couple of bad witnesses; custody has to hold for every combination of inputs, seal kinds, histories and forged witness.",
     [V, S], [("verify_seals_closing over seals of all inputs with opid as a message", EV), ("NoWitness", EV)],
     [("closed_seals", "seals of inputs of the current operation", EV)], LEDGER)

prop("C02", "Inputs come from cells disclosed earlier in the consignment, once each",
     "Each input of each accepted operation refers to a cell for which an earlier operation of the same consignment has "
     "disclosed a seal definition, and which no other operation (or another input of the same one) has consumed since "
     "that operation was listed; otherwise evaluation fails with the error about an unknown seal naming the address of that input. What the ledger knows from "
     "other evaluations, undisclosed definitions, cells of the operation itself and of later operations do not count, "
     "and all of this applies equally to the operations already known to the ledger.",
     ["inputs", "histories"], "for every consignment: order, duplication and omission of operations, disclosed subset of definitions, repeated inputs, state of the ledger before",
     "Tests check a single unknown input; double use depends on history, position, multiplicity and on whether operations are known.",
     [V], [("seal map: lookup removes", EV), ("seals are added after the operation is verified", EV)],
     [("seals", "seals of unspent cells disclosed by the consignment", EV)], LEDGER)

prop("C03", "Disclosed seal definitions belong to the very cells they are disclosed for",
     "A consignment is accepted only if each seal definition disclosed at a position N is the one whose auth token stands in the "
     "N-th owned-state output of that very operation; a definition for a position out of range, for another output of the same operation, or "
     "with any part altered is rejected as a mismatch of seal definitions, for any operation, known ones and the genesis included, and the "
     "offending definition never gets into the ledger nor allows state to be spent. Omitting any or all of definitions is legitimate.",
     ["inputs"], "for every operation, disclosed set of (position, definition) pairs, kind of seal; for any sizes of outputs",
     "The tests cover one wrong definition of a single-output operation; binding is over all positions, permutations and subsets of definitions. (The code compared sets and not positions: repaired in 2942e33.)",
     [V, S], [("comparison of auth tokens of cells and definitions", EV), ("auth_token", "src/seals.rs: RgbSealDef")],
     [("defined_seals", "definitions disclosed for an operation", "src/verify.rs: OperationSeals")], LEDGER)

prop("C04", "Every valid consignment is accepted and gives the right state",
     "A consignment listing a contract genesis and then, in any order in which operations follow those they spend or read from, valid operations, "
     "with definitions of all seals which it spends and witnesses closing them, is accepted by a ledger knowing any "
     "ancestry-closed part of the contract, and brings it exactly to the state after these operations. This holds for any "
     "shape of history: length, fan-in, fan-out, kinds of seals, several operations closed by a single witness transaction, owned and global state, operations without inputs, "
     "partly disclosed definitions.",
     ["inputs", "histories"], "for every valid history, every topological order of its operations, every prior state of the ledger, sizes up to consensus limits",
     "Tests accept a handful of tiny histories; rejection of valid history loses money and splits the network, and depends on rare shapes and on large sizes.",
     [V, S], [("main loop", EV)], [("ledger", "contract state behind the callbacks", "src/verify.rs: ContractApi")], LEDGER)

prop("C05", "A failed evaluation leaves exactly the valid prefix in the ledger",
     "When evaluation fails - at an invalid operation, or because the stream of the consignment fails at any point - the ledger has "
     "received everything which is due for the operations before the failure, and nothing at all about the failed "
     "operation and those after it; a stream failure is always reported as an error. Afterwards the same ledger can be given the same or "
     "a corrected consignment, with the same outcome as if the failed evaluation had not happened.",
     ["inputs", "crash_points", "fault_sequences"], "for every consignment, every position and kind of the fault, every point at which the stream breaks, any number of retries",
     "Tests do not look at the effects made before an error; atomicity quantifies over the failure points and on what follows.",
     [V], [("callbacks are called after all the checks of an operation", EV), ("Stream error", EV)], (), LEDGER)

prop("C06", "Business logic of the codex gates each new operation",
     "An operation not known to the ledger is applied only if the contract codex accepts it for this contract, over exactly the state which "
     "the ledger has at that moment, i.e. after all previous operations of the same evaluation; otherwise evaluation fails with "
     "the very error of the codex script verification. Wrong contract id, unknown method, missing library, absent or already spent "
     "state, wrong lock, a failing script are all rejected, however well the seals are closed.",
     ["inputs", "programs", "histories"], "for every operation, codex script and ledger state, at any position of the consignment",
     "Tests use a codex whose single script always succeeds or always fails, and an empty state.",
     [V], [("Codex::verify for unknown operations", EV), ("Vm error", EV)], [("memory", "contract state visible to scripts", "src/verify.rs: ContractApi::memory")], LEDGER)

prop("C07", "Known operations are never re-applied, yet their seals are always checked",
     "An operation which the ledger already knows is neither applied nor judged by the codex again, so a consignment can overlap with anything already "
     "known, be repeated, or resumed after an interruption, and gives the same state; but its seal definitions, inputs "
     "and witness pass exactly the same checks as those of a new operation, and are delivered to the ledger. Whether an operation is known "
     "is decided at the moment it is met, so the second listing of an operation in a consignment isn't applied again.",
     ["inputs", "histories"], "for every split of a history into known and new operations, including duplicates in one consignment and valid operations whose scripts fail on the current state",
     "The tests have one known operation; overlap quantifies over all histories and known sets, and wrong skips show only with specific forged evidence for known operations.",
     [V], [("is_known branch", EV)], [("is_known", "set of operations known to the ledger", "src/verify.rs: ContractApi::is_known")], LEDGER)

prop("C08", "Genesis is bound to the codex, gets the contract id, and is never applied",
     "The first operation of a consignment must carry the codex id in place of the contract id; with anything else there evaluation "
     "fails before any effect on the ledger. It is then processed as an operation of the contract being evaluated - its operation "
     "id and addresses of its cells are computed with the contract id of the ledger - and is never applied as a state transition; only the first "
     "operation has this treatment, any later one must carry the contract id itself.",
     ["inputs"], "for every first and later operation, contract id, codex, and ledger state; genesis with or without owned state, definitions, a witness",
     "Tests use one genesis, with an all-zero-like contract id; the substitution matters for every opid, address and witness downstream.",
     [V], [("contract id substitution for the first operation", EV), ("NoCodexCommitment", EV)], [("is_genesis", "first-operation flag", EV)], LEDGER)

prop("C09", "Only the genesis known to the ledger can start a consignment",
     "The interface requires a ledger to always know its genesis, so an operation at the head of a consignment which the "
     "ledger does not know is not the genesis of the contract. Such a foreign genesis must be rejected, must never be applied as an operation, and "
     "if it has faults of its own (failing script, mismatched definitions, bad witness, unknown inputs) is never let through.",
     ["inputs"], "for every first operation differing from the genesis of the contract in anything, with every state of the ledger",
     "Tests use ledgers which say they know nothing, hence the present behaviour, which lets a valid foreign genesis through without applying it, is even pinned by one of them (a known finding).",
     [V], [("is_genesis / is_known", EV)], [("is_genesis", "first-operation flag", EV)], LEDGER)

prop("C10", "Witness-relative seals are bound to the witness of their own operation",
     "A seal definition given relative to a witness output stands, in the whole evaluation, for the output with that number of the very witness transaction "
     "which comes with the defining operation in this consignment - of its latest listing, if it is listed more than once - and "
     "secondary data is preserved; a definition given with an outpoint is never affected by any witness. Operation spending "
     "such state is accepted only if its witness closes that output, whatever other transactions, outputs and re-minings exist, and if the defining operation "
     "has come without a witness, witness-relative state of it cannot be spent.",
     ["inputs", "histories"], "for every mix of relative and absolute definitions in an operation, witness, chain of operations, output number, replaced witness (re-mining, RBF), known or new operation",
     "Tests resolve one seal in one transaction; the binding is relative to the consignment, and mistakes show only with several witnesses or mixed definitions.",
     [V, S], [("resolution with pub_id of the witness", EV), ("RgbSealDef::resolve, to_src", S)],
     [("seal_sources", "seals resolved for the current operation", EV)], LEDGER)

prop("C11", "Ledger is notified exactly once, with exact data, in the order required",
     "For each accepted operation, in the order of the consignment and before the next operation is verified, the ledger gets: its witness if it has one; the verified operation "
     "if it's new and isn't genesis; its disclosed seal definitions if any - each exactly once, under the right operation id and with contents exactly "
     "as in the consignment (genesis with the contract id substituted) - and nothing else. Notification of the witness precedes that of the operation.",
     ["inputs", "histories"], "for every consignment and ledger; operations with and without witness, definitions, inputs; genesis; known ones; duplicates",
     "The tests' ledger keeps no log of calls: contents, multiplicity and order of the notifications aren't observed at all.",
     [V], [("apply_witness, apply_operation, apply_seals calls", EV)], (), LEDGER)

prop("C12", "Errors tell the truth",
     "If evaluation fails, the error names a fault which the first invalid operation of the consignment really has, with the right operation id, "
     "cell address, witness id, nature of the seal-closing failure, script error and, for mismatched definitions, exactly the set of tokens of the "
     "operation, the set of tokens of the disclosed definitions and all these definitions with positions; or else it is the failure of the stream, with its text, if that came first. An evaluation of a valid consignment gives no error.",
     ["inputs", "fault_sequences"], "for every fault (or several at once) at every position of every consignment",
     "Tests compare a few error texts for single faults at fixed positions.",
     [V], [("VerificationError and the places where it is raised", V)], (), ("returned error, its fields and its text",))

prop("C13", "Parties with the same operations agree on the state, however delivered",
     "Ledgers which have received the same set of valid operations come to the same state and the same set of known operations, regardless of the order of operations, of "
     "how they were split, overlapped or repeated in consignments, of interruptions and retries, of rejected invalid operations in between, and of which unneeded "
     "definitions were disclosed. An operation invalid in a given state is never accepted on any way, and of two operations spending the same state no more than one is ever applied.",
     ["schedules", "histories", "fault_sequences"], "for every history, linear extension of it, partition into consignments, placement of interruptions and of invalid or rival operations",
     "Each test makes a single evaluation (or two) in one order: agreement is a relation among executions.",
     [V], [("seals are known per evaluation, operations per ledger", EV)], [("ledger", "contract state behind the callbacks", "src/verify.rs: ContractApi")],
     ("final states of ledgers", "verdicts"))

prop("C14", "Auth token is the documented commitment to a seal definition",
     "Auth token of a bitcoin seal definition equals the first 30 bytes of the tagged SHA-256 commitment id over the strict encoding of all of its data, and depends on nothing "
     "else: equal definitions always have equal tokens, in each build configuration, and any change of a definition - kind, transaction id, output number, each bit of "
     "the noise or of the fallback - gives another token.",
     ["inputs", "configurations"], "for every seal definition, of both kinds, with both kinds of secondary data, in every feature set",
     "Tests pin one token of one definition; a truncated, order-dependent or partial commitment may agree on it and collide elsewhere.",
     [S], [("RgbSealDef::auth_token for WTxoSeal", S)], (), ("auth_token values",))

prop("C15", "Resolution of seal definitions loses and confuses nothing",
     "Resolving a witness-relative definition gives the outpoint of the given transaction with exactly the output number defined and the same secondary data; resolving one with "
     "an outpoint gives that outpoint for any witness id. A definition converts to a seal with no witness if and only if it has an outpoint, with the same result as "
     "its resolution; so different witnesses give different seals for relative definitions, and different definitions of the same kind never resolve to equal seals with the same witness.",
     ["inputs"], "for every definition (output numbers of full 32 bits, both kinds of secondary data, boundary transaction ids) and every witness id",
     "Tests use output 0 and one witness id.",
     [S], [("RgbSealDef::resolve, to_src for WTxoSeal", S)], (), ("resolved seals",))

prop("C16", "Consignment items have one faithful, strict and stable encoding",
     "An operation with its seals and witness survives binary (strict) and JSON serialisation unchanged, alone and in a sequence, and evaluates with the same result after that; its clone is equal to it. The binary layout is fixed - operation, "
     "position-to-definition map in the order of positions, optional witness - and the JSON fields are 'operation', 'definedSeals' and 'witness'. Data which "
     "are truncated, have unsorted or repeated positions, or a wrong option tag are rejected with an error, and whatever bytes decode successfully, encode back to the same bytes consumed.",
     ["inputs", "configurations"], "for every item: sizes from none to many definitions, all kinds of seals, with and without witness; for every damage of the encoded bytes; with and without serde",
     "There are no tests of serialisation at all.",
     [V, L], [("derived StrictEncode/StrictDecode/serde and manual Clone for OperationSeals", "src/verify.rs: OperationSeals"), ("LIB_NAME_RGB", L)], (),
     ("bytes", "JSON", "decoded values"))

prop("C17", "No consignment can crash, hang or exhaust the verifier",
     "Evaluation of any consignment, however malformed, hostile or large, ends with success or an error: no panic, arithmetic overflow, abort, "
     "stack exhaustion, undefined behaviour or endless loop, in checked and in optimised builds. It reads the stream strictly in sequence, up to the first of its end, a failure, or an invalid "
     "operation, never reading after them, and the heap it holds is proportional to the size of the consignment.",
     ["inputs", "configurations"], "for every stream of items which can be decoded, including extreme positions, sizes, long chains, wide operations, contradictory contents",
     "Tests use small well-formed operations; absence of panics and of excess in resources is a claim on all inputs.",
     [V, S], [("checked access to outputs and seals", EV), ("confined collections", "src/verify.rs: OperationSeals"), ("deny(unsafe_code)", L)], (),
     ("panics, signals and sanitizer reports", "heap usage", "reads of the stream"))

prop("C18", "The verdict depends on the consignment and the ledger alone",
     "Evaluating equal consignments against equal ledgers gives equal verdicts and equal sequences of notifications: each time it is repeated, whatever "
     "was evaluated before in the same process, when evaluations run in several threads or one within another, in any interleaving, and in each build configuration.",
     ["schedules", "histories", "configurations"], "for every consignment, previous and concurrent evaluations, interleaving of their reads and callbacks, thread count, feature set, build profile",
     "Tests run each evaluation once, in one configuration; hidden shared state, dependence on hash order, address or features is invisible in a single run.",
     [V, S], [("all state of an evaluation is local", EV), ("ordered collections", EV)], (), ("verdicts and logs of callbacks of repeated and concurrent runs",))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
