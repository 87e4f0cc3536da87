#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

A = "state/src/action/"
AU = "state/src/authority/"
PA = "program/src/actions/"

prop("P01", "A fixed allowance admits only spends within it and is reduced exactly",
 "Charging a spend to a fixed SOL, token or stake allowance (with or without a fixed destination) succeeds exactly when the spend does not exceed the remaining allowance. On success the remaining allowance falls by exactly the spend and nothing else in the permission changes; on refusal nothing changes at all.",
 ["inputs", "histories"], "every remaining allowance and every requested amount (all u64 pairs), hence every history of charges",
 "Unit tests charge a few amounts; the claim is about every pair of 64-bit values, including equality and extremes, and about untouched fields on both outcomes.",
 [A+"sol_limit.rs", A+"sol_destination_limit.rs", A+"token_limit.rs", A+"token_destination_limit.rs", A+"stake_limit.rs"],
 [("comparison before subtraction in each charge routine", A+"*_limit.rs: run")],
 [("amount", "remaining allowance", A+"*_limit.rs")], ["result of the charge routine", "stored remaining allowance"])

prop("P02", "A recurring allowance refills only after its window and never overspends",
 "Charging a recurring SOL, token or stake allowance (with or without a fixed destination) refills the allowance to exactly its configured limit only when strictly more than one window has passed since the last recorded reset (and, where the routine says so, the spend fits the limit), then succeeds exactly when the spend does not exceed what is available, deducting it exactly. The configured limit, window and any destination or mint never change, a refusal changes nothing at all, and every newly recorded reset time is at most the current slot and less than one window behind it. (For records with a non-zero window, which P04 guarantees.)",
 ["inputs", "histories"], "every stored allowance, window, reset time, current slot and amount",
 "Tests pick a handful of slots; an off-by-one window, a refill on the refusal path, or a drifted reset time needs a specific slot relation to show.",
 [A+"sol_recurring_limit.rs", A+"token_recurring_limit.rs", A+"stake_recurring_limit.rs", A+"sol_recurring_destination_limit.rs", A+"token_recurring_destination_limit.rs"],
 [("elapsed-window comparison, refill, bound check, subtraction", A+"*recurring*: run")],
 [("current/current_amount, last_reset", "available now, slot of last refill", A+"*recurring*")], ["result of the charge routine"])

prop("P03", "A program-scope allowance never lets accumulated spending pass its limit",
 "Charging a program-scope permission succeeds exactly when it is of the unlimited kind, or when the amount already spent plus the new spend stays within the configured limit, where for the recurring kind the spent amount restarts from zero only after a full window has elapsed. The recorded spent amount grows by exactly the spend on success and never shrinks except by such a restart; the limit, window, program and target never change, and unknown kinds are refused.",
 ["inputs", "histories"], "every stored kind, spent amount, limit, window, reset slot, current slot and spend",
 "The state tests cover layout only; overflow of spent+amount and the three kinds times the window relation are not sampled.",
 [A+"program_scope.rs"], [("kind dispatch and accumulated-spend check", A+"program_scope.rs: run")],
 [("current_amount, limit, window, last_reset", "spent so far and its bounds", A+"program_scope.rs")], ["result of the charge routine"])

prop("P04", "Only well-formed permission records are ever accepted, without crashing",
 "For every permission kind the well-formedness check accepts only byte strings of exactly that kind's record length, accepts a recurring limit only with a non-zero window, a clean reset marker and a full allowance (destination-bound recurring limits: a non-zero window and an available amount within the limit; recurring program scopes: a non-zero window), and accepts sub-account records only with a blank account and a valid enabled flag. It returns a verdict for every byte string of every length (it never aborts), and every kind number is routed to its own check.",
 ["inputs"], "every kind number and every byte string as permission data",
 "Tests feed well-formed records and a few wrong lengths; short strings, zero windows and misrouted kinds are not covered for all 27 kinds.",
 [A+"mod.rs", A+"*.rs"], [("per-kind well-formedness routine", A+"*: valid_layout"), ("kind dispatch", A+"mod.rs: validate_layout")], (), ["result of layout validation"])

prop("P05", "A permission lookup returns only a record of the right kind and target",
 "Looking up a permission in a role yields a record only if its stored kind is the requested kind and, for kinds that may appear several times, only if the record's own target (mint, destination, program, account, role or sub-account) equals the requested one; the search starts at the first record, stays inside that role's permission bytes, moves on to the stored boundary (over a creation request, which has no stored boundaries yet: past the header and the record length it states), never skips a matching record and reports absence only at the end. All four lookup routines over a stored role and the creation-time lookup follow this rule; lookup keys shorter than the target are the caller's responsibility.",
 ["inputs"], "every role content and every lookup key",
 "Tests look up present permissions in small roles; returning a sibling's record needs several same-kind records or a near-miss key.",
 ["state/src/role.rs", A+"mod.rs", A+"*.rs"], [("kind comparison and target match before the record is returned", "state/src/role.rs, state/src/action/mod.rs"), ("per-kind target comparison", A+"*: match_data")], (), ["returned permission"])

prop("P06", "Kind numbers, record types and handlers agree one-to-one everywhere",
 "Every permission kind and every authority kind has exactly one number, one record type, one length and one implementation, and every place that dispatches on the number (decoding, length lookup, loading for authentication, creation, read-only view) selects that same implementation; unknown numbers are refused.",
 ["inputs", "programs"], "every kind number (0..65535) at every dispatch site",
 "Tests touch a few kinds at a few sites; a swapped arm at one site for one kind passes them.",
 [A+"mod.rs", AU+"mod.rs", "state/src/swig.rs", "state/src/role.rs"],
 [("kind-number decoding", AU+"mod.rs, "+A+"mod.rs: TryFrom<u16>"), ("dispatch tables", "state/src/swig.rs: get_mut_role, lookup, add_role")], (), ["implementation selected for a stored kind number"])

prop("P07", "Key-based authentication needs the exact stored key as a real signer",
 "Authenticating with an Ed25519 authority succeeds only if the account at the index named by the caller exists, is marked as having signed the transaction, and its key equals the stored public key (for session use: the stored session key). Any other situation, including an empty payload or an out-of-range index, is refused without aborting.",
 ["inputs"], "every account list, index byte and stored key",
 "Tests use one signer account; a missing signer check or wrong-key acceptance shows only for an unsigned or different account.",
 [AU+"ed25519.rs", AU+"secp256k1.rs", AU+"secp256r1.rs", AU+"mod.rs"],
 [("signer and key equality check", AU+"ed25519.rs: ed25519_authenticate")], (), ["authentication result"])

prop("P08", "Sessions expire, are capped in length and start inactive",
 "For all four session-capable authority kinds, a session is accepted only while the current slot has not passed its recorded expiry; starting a session is refused when the requested duration exceeds the configured maximum, otherwise it records exactly the requested key and an expiry of the current slot plus the duration (refusing values that do not fit). A newly created session authority has no active session: whatever bytes were in the record before, its session key and expiry come from the creation data and zero.",
 ["inputs", "histories"], "every slot, expiry, duration, maximum, key and prior record content",
 "Tests use one slot and duration; off-by-one expiry, wraparound of the expiry and leftovers in reused bytes need particular values.",
 [AU+"ed25519.rs", AU+"secp256k1.rs", AU+"secp256r1.rs", AU+"programexec/*.rs"],
 [("expiry comparison", AU+"*: authenticate_session"), ("duration cap and expiry computation", AU+"*: start_session"), ("record initialisation", AU+"*: set_into_bytes")],
 [("current_session_expiration, session_key, max_session_length", "session state", AU+"*")], ["authenticate/start result", "stored session fields"])

prop("P09", "A signature counter value authenticates at most once",
 "For every secp256k1 and secp256r1 authority (with and without sessions), authentication succeeds only if the counter in the payload is exactly one more than the stored counter, and every successful authentication stores that new value before returning; a failed authentication leaves the stored counter unchanged. The counter that is checked is the one bound into the signed hash.",
 ["inputs", "histories"], "every stored counter, payload and history of attempts",
 "Replay needs a two-step history; dropping the store or accepting a range of counters keeps single-shot tests green.",
 [AU+"secp256k1.rs", AU+"secp256r1.rs"], [("counter equality check and store-on-success", AU+"secp256*.rs: *_authority_authenticate")],
 [("signature_odometer", "last used counter", AU+"secp256*.rs")], ["authentication result", "stored counter"])

prop("P10", "Off-chain signatures are refused when stale, future-dated or truncated",
 "Secp256k1 and secp256r1 authentication refuses payloads shorter than the fixed minimum, signatures dated after the current slot, and signatures older than the fixed maximum age; this holds on every path that ends in success.",
 ["inputs"], "every payload length, signature slot and current slot",
 "Boundary ages and a wrapped subtraction for future slots are not sampled by the tests.",
 [AU+"secp256k1.rs", AU+"secp256r1.rs"], [("payload length guard, age computation and comparison", AU+"secp256*.rs")], (), ["authentication result"])

prop("P11", "The signed hash covers the request, every account, the slot and the counter",
 "The message an off-chain signature is checked against is a hash over the request bytes, the key and the signer and writable flags of every account passed in, the signature slot and the counter, in one fixed order with fixed widths after the request; the public key recovered or presented must equal the stored key, and a malleable (high-S) secp256k1 signature is refused. Requests with more accounts than the hash can cover never succeed.",
 ["inputs"], "every request, account list, slot and counter",
 "Dropping one component still verifies honest signatures made by the same code; only an attacker's altered request would reveal it.",
 [AU+"secp256k1.rs", AU+"secp256r1.rs"], [("hash input assembly", AU+"secp256*.rs: compute_message_hash / secp256k1_authenticate"), ("stored-key comparison", AU+"secp256k1.rs")], (), ["bytes fed to the hash"])

prop("P12", "Passkey authentication trusts only the exact preceding native verification",
 "Secp256r1 authentication succeeds only if the instruction immediately before the current one is the native secp256r1 verification program, carries exactly one signature whose data lives wholly in that same instruction with public key and message at the fixed offsets, and verifies exactly the stored public key over exactly the expected message. The instruction list is read only from the genuine sysvar account, and no verification-instruction bytes make the checker read outside them.",
 ["inputs"], "every transaction layout and every preceding-instruction byte string",
 "Tests use well-formed verification instructions; forged offsets, indices and multi-signature headers are where bypasses hide.",
 [AU+"secp256r1.rs"], [("instruction binding checks", AU+"secp256r1.rs: secp256r1_authenticate, verify_secp256r1_instruction_data")], (), ["authentication result"])

prop("P13", "A passkey assertion must embed the computed challenge exactly once",
 "When a WebAuthn-style assertion is used, the message that must match the natively verified one is rebuilt with the challenge taken from the computed request hash, an assertion type of a get request, and each mandatory field present exactly once; malformed, truncated or unknown-kind assertion data is refused without aborting.",
 ["inputs"], "every assertion byte string",
 "Tests use a handful of browser-made assertions; duplicated or missing fields and truncated encodings are not enumerated.",
 [AU+"secp256r1.rs"], [("assertion parsing and client-data reconstruction", AU+"secp256r1.rs: webauthn_message, reconstruct_client_data_json")], (), ["message compared with the verified one"])

prop("P14", "Program-executed authority needs the configured preceding instruction",
 "Authentication by program execution succeeds only if the instruction list comes from the genuine sysvar account, the referenced instruction precedes the current one, was addressed to the configured program with data starting with the configured prefix, and names this wallet's configuration and wallet address as its first two accounts. A configuration naming the wallet program itself or an over-long prefix is refused at creation.",
 ["inputs"], "every transaction layout, index and stored configuration",
 "Unit tests cannot build arbitrary instruction sysvars; each omitted check still passes the honest flow.",
 [AU+"programexec/mod.rs", AU+"programexec/session.rs"], [("ordered checks before success", AU+"programexec/mod.rs: program_exec_authenticate"), ("creation checks", AU+"programexec: set_into_bytes")], (), ["authentication result"])

prop("P15", "Role identifiers are unique and never reused",
 "Every role added to a wallet receives the value of a wallet-wide counter which then increases by one and is never decreased or reset by adding or removing roles; the recorded number of roles goes up by one on each successful addition and down by one on each successful removal, and a refused operation that reports failure for missing roles or bad data does not hand out an identifier.",
 ["histories"], "every history of role additions and removals",
 "Reuse needs a remove-then-add history with particular ids; tests check single steps.",
 ["state/src/swig.rs"], [("counter handling", "state/src/swig.rs: SwigBuilder::add_role, remove_role")],
 [("role_counter, roles", "next id, live count", "state/src/swig.rs")], ["stored role ids and counters"])

prop("P16", "Removing or adding a role leaves every other role and its bounds intact",
 "Adding a role appends a record whose recorded end equals its true end, whose permission count and per-permission boundaries match what was stored, and rejects permission lists that are empty, malformed or overrun the supplied bytes. Removing a role shifts exactly the bytes after it down by exactly its size, lowers exactly the later roles' recorded ends by that size, and clears the freed bytes.",
 ["inputs", "histories"], "every role list, target and permission list",
 "Tests remove from small wallets; a wrong bound for the middle of three or more roles or a stale tail needs particular shapes.",
 ["state/src/swig.rs"], [("append and compaction arithmetic", "state/src/swig.rs: SwigBuilder::add_role, remove_role")], (), ["account bytes after the operation"])

prop("P17", "Untrusted bytes are never read or written out of bounds",
 "Whatever bytes a caller supplies, every access the program makes to instruction data, to the account list, to an account's header or its data up to the recorded length, to a role's stored bytes or to any slice argument of the shared state, assertion and instruction-parsing routines lies inside it, unchecked accesses included and on failing paths too; input that would need more is refused or aborts.",
 ["inputs"], "every instruction, account list, account content and argument; every access on every path",
 "Out-of-range reads silently succeed in tests; each site is safe or not for all inputs.",
 ["state/src/swig.rs", "state/src/role.rs", "state/src/transmute.rs", "instructions/src/lib.rs", "assertions/src/lib.rs", PA+"*.rs"], [("length guards before unchecked accesses", "each unchecked site")], (), ["unchecked slice, pointer and zero-copy accesses"])

prop("P18", "The optional trailer is either absent or exactly one valid rent-claimer entry",
 "Reading a wallet's trailer succeeds only for an empty trailer or one well-formed entry of the known kind, version and length with zero reserved bytes; anything else is refused rather than ignored. Saving and restoring the trailer around a resize reproduces exactly the saved bytes at the end of the roles and clears nothing else of it.",
 ["inputs"], "every trailer byte string and every resize",
 "Tests cover a few corruptions; the claim is for every byte of the header.",
 ["state/src/tail/mod.rs", "state/src/tail/rent_claimer.rs"], [("strict header comparison", "state/src/tail/rent_claimer.rs: read_strict"), ("save/restore", "state/src/tail/mod.rs: SavedTail")], (), ["parsed rent claimer", "bytes after restore"])

prop("P19", "Derived address kinds use distinct, consistent derivation inputs",
 "The five kinds of derived addresses (wallet configuration, wallet address, sub-account, second-generation sub-account state and sub-account asset) each start from their own constant prefix, no two kinds share prefix and shape, and for each kind the address form, the bump form and the signing form use the same inputs in the same order.",
 ["inputs"], "every identifier, role, sub-account id and bump",
 "A collision or mismatch between the deriving form and the signing form shows only when a particular pair is used together on chain.",
 ["state/src/swig.rs"], [("seed builders", "state/src/swig.rs: *_seeds, *_seeds_with_bump, *_signer")], (), ["seed lists"])

prop("P20", "Stored records have one fixed layout with no hidden bytes",
 "Every record that is reinterpreted directly from account or instruction bytes has a declared length equal to its in-memory size, fixed field order, no padding, and no field for which some byte pattern is invalid unless that pattern is rejected before the view is taken; its serialised form is exactly those bytes.",
 ["inputs", "programs"], "every record type and every byte pattern",
 "Layout is a compile-time fact of each type; invalid patterns are undefined behaviour that tests do not observe.",
 ["no-padding/src/lib.rs", "state/src/**", PA+"*.rs"], [("declared length and padding derive", "no-padding/src/lib.rs, every Transmutable impl")], (), ["type layouts"])

prop("P21", "Parsed inner instructions carry only legitimate signer and writable rights",
 "When a compact inner instruction is expanded, an account is marked as signer only if it signed the outer transaction or is the wallet's own signing address, and never if it is on the restricted list; it is writable exactly when it is writable in the outer transaction; program, accounts, order and data are exactly those encoded. Indices outside the account list, truncated data and too many accounts are refused, well-formed encodings are not, and the instruction reports whether it needs the wallet's own signature.",
 ["inputs"], "every encoded byte string and account list",
 "There are no tests of the parser at all in the repository's reliable suite.",
 ["instructions/src/lib.rs"], [("bounded reads and flag computation", "instructions/src/lib.rs: parse_next_instruction")], (), ["expanded instruction"])

prop("P22", "Compact encoding and decoding agree and never grant the wallet's signature",
 "The client-side encoder writes exactly the fields, widths and order the on-chain parser reads; every encoded index refers to the account it was made from; an account of an inner instruction that is already listed is reused, any other is added once with its own writable and signer rights, except that the wallet's own address (and the sub-account's) is never added as a signer; programs are added as read-only non-signers; entries the caller passed in are not changed. This holds within the widths of the format: at most 256 outer accounts, 255 instructions, 255 accounts per instruction and 65535 bytes of data per instruction.",
 ["inputs"], "every list of instructions within the format's widths",
 "No test encodes and decodes; field-order or index drift between the two sides is invisible to each alone.",
 ["instructions/src/compact_instructions.rs", "instructions/src/lib.rs"], [("encoder", "instructions/src/compact_instructions.rs: into_bytes, compact_instructions*"), ("parser", "instructions/src/lib.rs")], (), ["encoded bytes", "outer account list"])

prop("P23", "Executing an inner instruction moves lamports only by a balanced transfer",
 "Executing an expanded instruction either invokes exactly that instruction with the wallet's signature or, only for a well-formed system transfer out of the wallet's own legacy account, moves the encoded amount from the source to the destination with the same amount on both sides. The shortcut is never taken for other programs, other instructions, other sources or instructions with fewer than two accounts, and it never wraps a balance.",
 ["inputs"], "every expanded instruction and account list",
 "The shortcut depends on a combination of program, data, first account and owner; tests exercise only the honest one on chain.",
 ["instructions/src/lib.rs"], [("shortcut guard and paired lamport updates", "instructions/src/lib.rs: execute")], (), ["lamport changes and invocations"])

prop("P24", "Only a known instruction number reaches an existing wallet",
 "Instruction data too short to hold a number is refused, the retired signing number is refused, every number outside the table is handled exactly as wallet creation and so never acts on an existing wallet, and every other number succeeds only with its whole argument record present and a non-empty wallet account.",
 ["inputs"], "every instruction byte string and account list",
 "The handlers cannot be built or run in the reliable test suite at all.",
 ["program/src/actions/mod.rs", "program/src/instruction.rs"], [("number decoding and dispatch", "program/src/actions/mod.rs: process_action")], (), ["handler reached, effects"])

prop("P25", "No wallet change or fund movement happens before the acting role authenticates",
 "Every instruction on an existing wallet other than general signing (P32) authenticates the acting role named in its arguments, using the session form exactly for session-based roles, before any wallet state is modified, any balance is moved or any inner instruction is invoked, and a failed authentication ends the instruction.",
 ["inputs"], "every instruction, account list and payload; every path through every handler",
 "The program crate is not buildable in the reliable suite, and honest flows authenticate even if one path forgot to.",
 [PA+"*.rs"], [("authenticate call dominating every effect", PA+"*.rs")], (), ["effects of each handler"])

prop("P26", "Each privileged operation requires the permission that guards it",
 "Managing authorities, migrating, moving assets, closing accounts, naming a rent claimer, and creating, using, draining or toggling sub-accounts each take effect only if the authenticated acting role holds one of the permissions that guard that operation; the all-but-manage permission never counts for managing authorities. The permission is read from the acting role's own record.",
 ["inputs"], "every role, permission set and handler path",
 "Tests grant the right permission; each missing or widened check passes them.",
 [PA+"*.rs"], [("permission lookup dominating every effect", PA+"*.rs")], (), ["effects of each handler"])

prop("P27", "The root role cannot be removed",
 "Removing a role is refused when the target is the first (root) role, whoever asks, before any state is changed.",
 ["inputs"], "every acting role and target",
 "The program crate is not buildable in the reliable suite.",
 [PA+"remove_authority_v1.rs"], [("target check", PA+"remove_authority_v1.rs")], (), ["removal effect"])

prop("P28", "A disabled sub-account cannot sign or be drained by its role",
 "Signing from or withdrawing from a sub-account takes effect only if its record belongs to this wallet, matches the requested role or sub-account id, and is currently enabled (for first-generation withdrawals: unless the actor acts through a managing permission without a sub-account record); only the toggle operation changes the enabled flag of an existing sub-account.",
 ["inputs", "histories"], "every sub-account state and request",
 "Needs a toggle-then-use history on chain; the reliable suite has none.",
 [PA+"sub_account_sign_v1.rs", PA+"sub_account_sign_v2.rs", PA+"withdraw_from_sub_account_v1.rs", PA+"withdraw_from_sub_account_v2.rs", "state/src/sub_account_v2.rs"],
 [("enabled and ownership checks before the signed call", PA+"sub_account_*.rs")], (), ["inner invocations"])

prop("P29", "A configured rent claimer is permanent and receives every reclaimed rent",
 "A rent claimer can be set only when none is set and only to a non-zero key that is neither the wallet configuration nor the wallet address; once set, closing the wallet or its token accounts succeeds only if the destination is that claimer.",
 ["inputs", "histories"], "every claimer, trailer and destination",
 "The program crate is not buildable in the reliable suite.",
 [PA+"set_rent_claimer_v1.rs", PA+"close_swig_v1.rs", PA+"close_token_account_v1.rs"], [("claimer checks before effects", PA+"set_rent_claimer_v1.rs, close_*.rs")], (), ["rent destination"])

prop("P30", "Resizing a wallet keeps its trailer at the end of the roles",
 "Every operation that resizes or rewrites the role region of a wallet saves the trailer beforehand and, on every successful path after the last change to the roles, writes exactly the saved trailer back at the end of the roles with the gap cleared.",
 ["inputs", "histories"], "every role-region operation and size change",
 "Losing the trailer needs a wallet with a claimer followed by a particular update; tests on chain only.",
 [PA+"add_authority_v1.rs", PA+"remove_authority_v1.rs", PA+"update_authority_v1.rs", "state/src/tail/mod.rs"], [("save/restore pairing", PA+"add/remove/update_authority_v1.rs")], (), ["account bytes after the operation"])

prop("P31", "The off-chain signature covers every argument a handler acts on",
 "In every instruction other than general signing whose acting role may be a signature-based authority, the bytes handed to authentication include every argument field and variable-length section the handler later uses other than the authority payload itself.",
 ["inputs"], "every instruction and payload split",
 "An uncovered field is invisible to honest callers.",
 [PA+"*.rs"], [("data payload construction", PA+"*.rs: from_instruction_bytes")], (), ["bytes handed to authentication"])

prop("P32", "General signing runs inner instructions only under checked permissions",
 "Unless the acting role holds an unrestricted permission, general signing invokes an inner instruction that uses the wallet's signature only if the role permits the called program, compares every writable wallet-controlled account before and after, and charges every decrease of SOL, token, stake or program-scope balance to a matching allowance of that role, refusing when none matches.",
 ["inputs", "histories"], "every inner instruction list and account classification",
 "Needs adversarial inner instructions on chain.",
 [PA+"sign_v2.rs"], [("permission check, snapshots, post-run charging", PA+"sign_v2.rs")], (), ["inner invocations and charged allowances"])

prop("P33", "Privileged handlers trust only accounts owned by the wallet program",
 "Every handler that reads wallet configuration or sub-account state refuses accounts not owned by the wallet program or without the expected record tag before using any field; every derived address used as a signer or destination is recomputed from the wallet's own data and compared; the second-generation instructions and the wallet-address transfer require a wallet in the new format, and the sub-account signing instructions refuse to run as an inner call.",
 ["inputs"], "every account list",
 "Tests always pass genuine accounts.",
 [PA+"*.rs", "program/src/util/mod.rs"], [("owner, tag and derivation checks", PA+"*.rs")], (), ["first use of account data"])

prop("P34", "Replacing a signer needs permission, a supported kind and a new key",
 "Replacing the signer of a role changes only that role's key material, requires a key of the length that kind demands and different from the current one, clears any running session and restarts the signature counter, and for program-executed actors (other than through a running session) requires a matching approval of exactly this replacement.",
 ["inputs"], "every actor, target role and new key",
 "The program crate is not buildable in the reliable suite.",
 [PA+"replace_authority_v1.rs"], [("per-kind replacement arms", PA+"replace_authority_v1.rs: replace_target_signer")], (), ["stored authority record"])

prop("P35", "A wallet keeps its identity and never reuses a sub-account id",
 "Each second-generation sub-account gets the value of a wallet-wide counter that only ever increases, and a sub-account state account is created only at the address derived from the wallet and that value; no operation, including migration of a legacy wallet, lowers the counter of a wallet already in the new format. The wallet's own id, bump and wallet-address bump never change, and a new sub-account's record holds exactly its own address, this wallet's id and the role or id it was created for.",
 ["histories"], "every history of creations and migrations",
 "Needs a create-then-migrate history on chain.",
 [PA+"create_sub_account_v2.rs", PA+"migrate_to_wallet_address_v1.rs", "state/src/swig.rs"], [("counter increment before creation; already-migrated guard", PA+"create_sub_account_v2.rs, migrate_to_wallet_address_v1.rs")], (), ["sub-account counter"])

prop("P36", "Client instruction builders list accounts as the program expects",
 "For every instruction the client library can build, the leading accounts are listed in the order, and with at least the signer and writable rights, the program's own account table for that instruction demands, and the instruction number written is that instruction's.",
 ["programs"], "every builder function",
 "The client library cannot be built here; a swapped pair fails only when sent.",
 ["interface/src/lib.rs", "interface/src/replace_authority.rs", "program/src/instruction.rs"], [("account vectors in builders; account table attributes", "interface/src/*.rs, program/src/instruction.rs")], (), ["built account lists"])

prop("P37", "Compute cost of every instruction stays within the runtime budget",
 "Every accepted instruction finishes within the compute budget of a Solana transaction.",
 ["inputs"], "every instruction, role count and account list",
 "Tests measure a few transactions.",
 ["program/src/actions/*.rs"], [("bounded loops", "program/src")], (), ["compute units"])

prop("P38", "Signatures made without the key are never accepted",
 "No party without the private key can produce a signature that authenticates as a given secp256k1 or secp256r1 authority.",
 ["inputs"], "every adversary",
 "Cryptographic hardness is not testable.",
 [AU+"secp256k1.rs", AU+"secp256r1.rs"], [("ECDSA recovery and verification", AU+"*")], (), ["authentication result"])

prop("P39", "The wallet's total assets change only by charged amounts across inner calls",
 "For every general-signing transaction, the sum of all SOL, token and stake decreases of wallet-controlled accounts caused by foreign programs equals what was charged to the acting role's allowances.",
 ["inputs", "histories"], "every behaviour of foreign programs",
 "Foreign programs are arbitrary.",
 [PA+"sign_v2.rs"], [("balance accounting", PA+"sign_v2.rs")], (), ["balances"])

prop("P40", "Funds move only along each instruction's fixed route",
 "Outside the instructions that run inner instructions, lamports move only between the accounts an instruction's table fixes for it and in its direction, none are created or lost, withdrawals and transfers move exactly the requested or whole amount, funding and refunds follow the rent minimum, and tokens move only through a genuine token program from an account of the wallet or sub-account to one owned by the wallet address (or, closing, to the destination).",
 ["inputs"], "every instruction, account list, balance and token account",
 "Wrong amounts and swapped accounts show only for particular balances; the program crate is not built by the reliable suite.",
 [PA+"*.rs", "program/src/util/mod.rs"], [("lamport stores, system transfers, token instructions", PA+"*.rs")], (), ["balances and inner calls"])

prop("P42", "An instruction lends its signature only for the address it acts for",
 "Every inner call is signed for nothing but the derived address the instruction acts for: the acting role's own sub-account of this wallet, the requested second-generation sub-account with its recorded bump, this wallet's account or wallet address for what they own, or a state account being created; all other instructions sign no inner call.",
 ["inputs"], "every inner call on every path and loop iteration",
 "A signature lent for another address is used only by a hostile caller.",
 [PA+"*.rs", "state/src/lib.rs"], [("signer seeds handed to invoke", PA+"*.rs")], (), ["signer seeds"])

prop("P41", "Creating a wallet makes exactly the requested wallet",
 "Creation succeeds only if the wallet account and the wallet address are unused and are the addresses derived from the requested id and from the wallet account; it leaves an account owned by the program, funded to its rent minimum by the payer and sized for its content, holding the requested id and bumps, zero counters and exactly one role, whose kind, authority and permissions are those supplied and include All or ManageAuthority; nothing else changes.",
 ["inputs"], "every creation instruction, account list and account content",
 "The handler cannot be built in the test suite; wrong accounts and boundary sizes are not enumerated.",
 [PA+"create_v1.rs", "state/src/swig.rs"], [("creation checks, account allocation, header and first role", PA+"create_v1.rs: create_v1")], (), ["created account bytes and balances"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
