ABS = "abstract interpretation of MIR (path-partitioned linear-inequality domain) against a reference relation"
CLAIMS = {
 "P01": (ABS, "Every path of the five fixed-allowance charge routines, all inputs. Trusts the MIR extractor, the interpreter's transfer functions and the listed reference relation."),
 "P02": (ABS, "Every path of the five recurring charge routines for all records with non-zero window. Same trusted base as P01."),
 "P03": (ABS, "Every path of ProgramScope::run for all records. Same trusted base as P01."),
}
NA = {
 "P13": "The reconstructed client data is built by loops of data-dependent length over Huffman-coded and escaped strings; the analysis has no string-valued loop summaries, so equality of the rebuilt message with the one the browser signed (and hence uniqueness of the fields) is not decidable by it.",
 "P32": "General signing nests, for each inner instruction, loops over all accounts, all snapshots and all permission kinds with balances havocked by foreign programs in between; the path- and loop-summarising analysis does not terminate on it within the budget, and no coarser static rule separates charged from uncharged decreases without false alarms. The charging routines it calls are P01-P03, their lookup P05, their parsing P21 and their execution P23.",
 "P36": "The client library's builders depend on SDK crates that are not installed here, so neither a typed program nor MIR exists for them; a purely textual comparison of account lists would judge spelling, not what the code builds.",
 "P37": "Compute cost is a run-time quantity of the deployed bytecode and the runtime's cost table; no source-level rule here bounds it.",
 "P38": "Unforgeability is a cryptographic hardness assumption about secp256k1/secp256r1, not a fact visible in the source.",
 "P39": "Quantifies over what foreign programs do to balances during inner calls; the structural part (snapshots, gating, charging) is P32.",
}
CLAIMS.update({
 "P04": (ABS, "Every kind's layout predicate and the dispatcher, every byte string. Same trusted base as P01."),
 "P05": (ABS + " with inductive loop summaries", "Every instantiation of the lookup routines for every role content with in-range stored bounds (established by P16). Same trusted base as P01."),
})
CLAIMS.update({
 "P06": (ABS + "; tables of trait constants from the type-checked program", "Every kind number, every loader instantiation and every conversion, all inputs. Same trusted base as P01."),
})
CLAIMS.update({
 "P07": (ABS, "Every path of the six key-based authentication routines, all account lists, payloads and records. Same trusted base as P01."),
 "P08": (ABS, "Every path of session start, session authentication and creation for all four session-capable kinds. Same trusted base as P01."),
})
SIG = "abstract interpretation of on-chain MIR (path-partitioned linear-inequality domain, hash calls as uninterpreted functions) with per-path proof of required facts"
CLAIMS.update({
 "P09": (SIG, "Every path of the four off-chain signature routines, account counts 0..64 (more are refused). Same trusted base as P01 plus models of the hash and recovery syscalls."),
 "P10": (SIG, "Every successful path of the four off-chain signature routines. Same trusted base as P09."),
 "P11": (SIG, "Exact hashed byte sequence on every successful path for each account count 0..64. Same trusted base as P09."),
 "P12": (SIG, "Every successful path of both secp256r1 routines down to the sysvar bytes; assumes the runtime's sysvar is well formed. Same trusted base as P09."),
 "P14": (SIG, "Every successful path of program-exec authentication and creation; assumes the runtime's sysvar is well formed. Same trusted base as P09."),
})
CLAIMS.update({
 "P15": (SIG + "; whole-program query for writers of the counters", "Every path of add_role (each authority kind) and remove_role; every assignment to the counters in the program. Same trusted base as P09."),
 "P16": (SIG + " and inductive loop summaries", "Every path of add_role (each authority kind), the permission counting routine and remove_role. Same trusted base as P09; assumes stored roles are structurally sound."),
})
CLAIMS.update({
 "P18": (ABS + " with inductive loop summaries", "Every path of the trailer reader, writer, save/restore and account splitting routines for all byte strings. Same trusted base as P09; accounts are at most 10 MiB."),
 "P19": (ABS, "The fifteen seed builders for all inputs; inputs have the fixed sizes every caller passes. Where handlers derive addresses is P33."),
 "P20": ("whole-program query over compiled layouts and reinterpretations, abstract interpretation of the load, serialise and validity routines", "Every record type made from raw bytes in the analysed crates, with the compiler's own layout; every load and serialise routine. Instruction numbers inside arguments are assumed decoded by the dispatcher (P24)."),
})
CLAIMS.update({
 "P21": (ABS + " with inductive loop summaries", "Every path of the parser and the restricted-key test, for all encodings of up to 10 MiB and all account lists. Each loop iteration is checked once for all iterations. Same trusted base as P09."),
 "P22": (ABS + " with inductive loop summaries; effect events for list and map updates", "Every path and loop iteration of both client encoders and of into_bytes, for all instruction lists within the format's widths. Map contents are not tracked: that the map's answer names the account is decided by an invariant on what is inserted (key recorded at the position that holds it). Same trusted base as P09, plus std's HashMap."),
 "P23": (ABS, "Every path of execute() on the on-chain configuration, for all holders the parser can produce. Same trusted base as P09; the invoked program and runtime are outside."),
})

HAND = "abstract interpretation of the on-chain program's MIR from its dispatcher, one instruction number at a time (path-partitioned linear-inequality domain, effect events, inductive loop summaries), with per-path proof of required facts"
HB = "Every successful path of %s: all account lists, instruction data and account contents. Role and permission lookup, wallet splitting, role editing and trailer save/restore are summarised by what P05, P15, P16 and P18 decide; sysvars, inner calls and system instructions are modelled. General signing (no. 11) is not tractable for this interpreter and is outside (P32)."
ALLI = "all eighteen instructions that act on an existing wallet other than general signing"
CLAIMS.update({
 "P25": (HAND, HB % ALLI + " Number 4 is shown never to succeed."),
 "P26": (HAND, HB % ALLI),
 "P27": (HAND, HB % ALLI),
 "P28": (HAND, HB % "the sub-account instructions (both generations)"),
 "P29": (HAND, HB % "SetRentClaimerV1, CloseTokenAccountV1 and CloseSwigV1"),
 "P30": (HAND, HB % "every instruction on an existing wallet except closing, naming a claimer and general signing"),
 "P31": (HAND, HB % ALLI + " One known finding (SubAccountSignV1)."),
})
CLAIMS.update({
 "P33": (HAND, HB % ALLI),
 "P34": (HAND, HB % "ReplaceAuthorityV1"),
 "P35": (HAND, HB % ALLI),
 "P40": (HAND, HB % "every instruction on an existing wallet except the sub-account signing ones and general signing, and every loop iteration,"),
 "P42": (HAND, HB % ALLI + " Loop iterations included."),
})

CLAIMS.update({
 "P17": (HAND.replace("with per-path proo", "with per-path proo") + "; the same interpreter run on each public library routine with arbitrary arguments", HB.replace("Every successful path of %s", "Every path of %s") % (ALLI + ", of creation, of unknown numbers and of short data, and of the public safe routines of the shared libraries; a few routines it cannot analyse on their own are counted in the evidence")),
 "P24": (HAND, HB % "every instruction number except general signing's, unknown numbers and data shorter than a number included"),
 "P41": (HAND, HB % "instruction 0"),
})
