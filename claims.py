"""Every property: what it says, where it is anchored, how far its check reaches.

tools/manifest.py writes properties.jsonl and MANIFEST.json from this file; check.py quotes it in
the evidence."""

COMMON_ASSUMPTIONS = [
    "The object that is executed symbolically is the bytecode compiled from the current tree by this toolchain; compiler and bytecode format are trusted.",
    "The token, system, metadata and hook programs the code calls are transition models written from their published behaviour; every explored kind of path end is replayed on the same bytecode with the real token and metadata programs, and any difference fails the check.",
    "Derived addresses never collide and nobody holds a private key for one (the hash is treated as injective); the runtime enforces its documented rules for signatures, writability, lamport sums and ownership.",
    "Accounts owned by a token program hold contents that program can leave behind (tags 0 or 1, state at most 2, fee at most 100 percent); a token account owned by a token program names a mint owned by that program.",
]

WRAP_SRC = "the entrypoint, instruction decoding, the wrap or unwrap handler, address derivation and every library routine they reach"
WRAP_BOUNDS = ("one transaction with one instruction; every address, owner, balance, supply, allowance, authority, state byte, flag, fee parameter, "
               "clock epoch, signer and writable bit symbolic over its full width; account layouts: plain accounts and mints of both token programs in every "
               "pairing, extensions transfer fee, permanent delegate, pausable, transfer hook (with validation lists of 0 to 6 accounts), memo, guard, "
               "immutable owner, interest, scaled amount, default state, close authority, confidential transfer (with fee), groups, members, pointers and a metadata "
               "record; wrapped mints of the shipped and of other customizers, with and without metadata; pairwise aliasing of accounts as listed; "
               "multisignature holders of 1 to 3 members under adversarial accounts (2 in quick runs) and up to 11 under honest ones")
WRAP_OUT = ("more than 3 adversarial multisignature members or extra accounts; longer hook lists; several extensions at once other than those listed; three or more roles aliased at once; "
            "compute limits; several instructions in one transaction")

CREATE_SRC = "the entrypoint, instruction decoding, the mint creation handler, the default mint customizer, address derivation and every library routine they reach"
CREATE_BOUNDS = ("one transaction with one instruction; every address, owner, authority, supply, decimals, lamport amount, flag, signer and writable bit symbolic; unwrapped mints "
                 "of both token programs, plain and with extensions; both wrapped token programs; mint and backpointer each absent or present; pairwise aliasing; up to five accounts left out")
CREATE_OUT = "unwrapped mints with other extensions (the handler reads only the base mint); compute limits; several instructions in one transaction"
CLOSE_SRC = "the entrypoint, instruction decoding, the stuck escrow handler, address derivation and every library routine they reach"
CLOSE_BOUNDS = ("one transaction with one instruction; every address, owner, balance, supply, state byte, authority, lamport amount, signer and writable bit symbolic; escrow layouts with and "
                "without each account extension against mints with and without the matching mint extension; pairwise aliasing; up to six accounts left out")
CLOSE_OUT = "other extensions; compute limits; several instructions in one transaction"

SYNC_SRC = "the entrypoint, instruction decoding, both metadata handlers, source resolution, conversions in both directions including the JSON and number formatting libraries, address derivation and every library routine they reach"
SYNC_BOUNDS = ("one transaction with one instruction; every address, owner, authority, signer and writable bit, and every character of name, symbol, URI and additional values symbolic (texts up to 9 symbolic characters, "
               "also with fixed filling up to Metaplex's full widths and 230 characters, and with characters of several bytes); sources: the mint itself, an external program, a Metaplex record reached by pointer, by address from either token program; Metaplex fields (fee, flags, up to 3 "
               "creators (5 fixed), nonce, standard, collection, uses, details, rule set) symbolic a few at a time with the others fixed, largest numbers included; up to 6 additional fields with fixed names, symbolic names for new targets; targets absent or present with equal or other content; "
               "up to seven accounts left out")
SYNC_OUT = ("longer texts and lists, symbolic field names on an existing target, addresses inside JSON text (fixed), several symbolic Metaplex fields beyond the listed combinations, compute limits, several instructions in one transaction; "
            "a record on which another program has since verified several creators or changed more than one of creators, collection and uses (each alone is a known finding)")
SYNC_STATE = [dict(name="wrapped metadata", meaning="what wallets show for the wrapped token", where="metadata of the wrapped mint or its Metaplex record")]
SYNC_ASSUME = ["The external program's answer is any well-formed metadata, and it signs for nobody and changes nothing else.",
               "Symbolic characters of texts are ASCII where the code converts them; characters of several bytes are fixed."]

P = "program/src/processor.rs"
MD = "program/src/metadata.rs"
MX = "program/src/metaplex.rs"
L = "program/src/lib.rs"
I = "program/src/instruction.rs"
ALL_INPUTS = ["inputs", "configurations"]


def claim(id, title, statement, text, why, files, mechanism, source, bounds, outside, level_note,
          over=ALL_INPUTS, state=(), assumptions=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, state=list(state), source=source, bounds=bounds, outside=outside,
                level_note=level_note, assumptions=list(assumptions))


NOTE = ("Symbolic execution of the compiled program: every path within the stated bounds is enumerated and the assertion decided by the solver for all "
        "inputs of the path; counterexamples are executed on the bytecode before they count. Trusts the executor, the models of called programs "
        "(cross-checked by replay) and the stated assumptions.")

_L = [
    claim("C01", "Wrapping mints exactly what the escrow received",
          "A successful wrap takes exactly the requested amount from the source account, and the recipient's wrapped balance and the wrapped supply both grow "
          "by exactly what the escrow's balance grew, which is the amount less any transfer fee. So no sequence of wraps can make the wrapped supply grow by "
          "more than the escrow.",
          "every amount, balance, supply, fee configuration, epoch, spender and combination of token programs, and every way accounts may coincide, whoever builds the transaction",
          "The tests wrap a few amounts with a few fee settings; the guarantee is about all amounts, fee roundings, allowances and aliased accounts.",
          [P], ["fee of the current epoch taken off the minted amount", "transfer that names the fee, so that the token program refuses any other", "escrow cannot be the source"],
          WRAP_SRC, WRAP_BOUNDS, WRAP_OUT, NOTE,
          state=[dict(name="escrow balance", meaning="backs the wrapped supply", where="unwrapped token account of the mint authority"),
                 dict(name="wrapped supply", meaning="claims on the escrow", where="wrapped mint")],
          assumptions=["No delegate is approved on the escrow (its owner is a derived address that never approves one)."]),
    claim("C02", "Unwrapping burns exactly what leaves the escrow",
          "A successful unwrap burns exactly the requested amount of wrapped tokens from the holder, reduces the wrapped supply by it, and releases exactly that "
          "amount from the escrow to the recipient, less only the unwrapped mint's own transfer fee. Nothing leaves the escrow that was not burned.",
          "every amount, balance, supply, fee configuration, epoch, spender and combination of token programs, and every way accounts may coincide",
          "The tests unwrap a few amounts; conservation must hold for every amount, fee and aliasing.",
          [P], ["burn of the requested amount before the transfer out", "checked transfer signed by the mint authority"],
          WRAP_SRC, WRAP_BOUNDS, WRAP_OUT, NOTE,
          state=[dict(name="escrow balance", meaning="backs the wrapped supply", where="unwrapped token account of the mint authority"),
                 dict(name="wrapped supply", meaning="claims on the escrow", where="wrapped mint")]),
    claim("C03", "Wrap and unwrap act only on the canonical accounts of a real pair",
          "Wrap and unwrap succeed only when the wrapped mint, the mint authority and the escrow are the addresses documented for the given unwrapped mint and "
          "token program, both token programs are genuine, and every token account holds the mint its role requires. Substituted, missing or look-alike accounts "
          "and programs make the transaction fail.",
          "every substitution of addresses, owners, programs and contents for every account of the instruction, and every number of accounts left out",
          "Tests substitute one wrong account at a time; here all accounts are adversarial at once.",
          [P, L], ["derivation of mint, authority and escrow addresses and comparison with the accounts given", "owner and mint checks of the token programs"],
          WRAP_SRC, WRAP_BOUNDS + "; up to nine accounts left off the end; unknown programs in place of either token program", WRAP_OUT, NOTE),
    claim("C04", "The program's signatures serve only the documented calls",
          "Whatever the instruction, every nested call that carries a signature is a documented one: a transfer, mint or burn while wrapping or unwrapping, the setup of the "
          "mint, backpointer or pointer account being created, or the closing of the escrow at hand, sent to the right program with the documented accounts. The program signs "
          "only for the derived address the instruction is about, and only where the documentation says so.",
          "every account list, alias, multisignature arrangement and extra account a caller can supply",
          "Tests check the outcome of honest calls; signature misuse shows only with accounts an attacker picks.",
          [P], ["signer seeds built from the wrapped mint address", "fixed account lists of nested calls"],
          WRAP_SRC + "; the creation, closing and pointer handlers", WRAP_BOUNDS, WRAP_OUT, NOTE),
    claim("C05", "Only an entitled spender moves tokens, and nothing else changes",
          "A wrap or unwrap succeeds only if the owner, an approved delegate with enough allowance, or the mint's permanent delegate (or enough members when that is a "
          "multisignature account) signed for the account that pays. It changes only the two balances, the escrow, the wrapped supply, a used allowance, withheld fees "
          "and the lamports of native tokens; every other account and field stays as it was.",
          "every combination of signers, owners, delegates, allowances, multisignature thresholds and memberships, and every account passed along",
          "Authorization tests sample a handful of signer sets; the guarantee covers all of them, including duplicate signers and thresholds.",
          [P], ["the spender's signature requirement is handed to the token program unchanged", "multisignature signers are passed on with their own signer flags"],
          WRAP_SRC, WRAP_BOUNDS, WRAP_OUT, NOTE,
          assumptions=["Anyone may burn wrapped tokens that belong to the system program or the incinerator, as the token programs allow."]),
    claim("C06", "An entitled holder can always wrap",
          "With the documented accounts, an initialized pair, unfrozen accounts and enough balance (or allowance), a holder or delegate can wrap any non-zero amount that "
          "overflows no balance. No amount, fee setting, decimals, authority or optional field of mint or accounts makes such a wrap fail.",
          "every amount, balance, supply, decimals, fee configuration and epoch, freeze or close authority, allowance, and pairing of token programs",
          "Tests wrap a few amounts; a failure for particular fees, decimals or optional fields would lock users out unnoticed.",
          [P], ["fee computation for the current epoch", "reading accounts of both token programs"],
          WRAP_SRC, WRAP_BOUNDS, WRAP_OUT + "; paused mints, mints with a hook that refuses, accounts that demand memos", NOTE,
          assumptions=["The fee can be computed by the token program itself (it fits its arithmetic); lamports back native tokens."]),
    claim("C07", "An entitled holder can always unwrap",
          "With the documented accounts, an initialized pair whose escrow covers the supply, and unfrozen accounts, a holder or delegate can unwrap any non-zero amount up "
          "to their balance (or allowance). Nothing in the state of either mint or of the escrow, short of the unwrapped mint's own restrictions, makes such an unwrap fail.",
          "every amount, balance, supply, decimals, fee configuration and epoch, freeze or close authority, allowance, and pairing of token programs",
          "Tests unwrap a few amounts; a failure for particular states would lock funds in the escrow.",
          [P], ["burn first, then transfer with the mint's decimals", "signer seeds of the mint authority"],
          WRAP_SRC, WRAP_BOUNDS, WRAP_OUT + "; paused mints, mints with a hook that refuses, accounts that demand memos", NOTE,
          assumptions=["The fee can be computed by the token program itself (it fits its arithmetic); lamports back native tokens."]),
    claim("C08", "Multisignature holders and transfer-hook mints can wrap and unwrap",
          "A multisignature holder with enough member signatures listed after the fixed accounts can wrap and unwrap, and for an unwrapped mint with a transfer hook the "
          "hook receives its program, its validation account and every extra account it asks for, with the privileges it asks for. Both also work together.",
          "every threshold and membership, every amount and balance, every hook program and extra account address",
          "Tests cover one threshold and one hook layout; forwarding must be right for every arrangement.",
          [P], ["extra accounts are split between signers and hook accounts and passed on to the nested transfer"],
          WRAP_SRC, WRAP_BOUNDS, WRAP_OUT, NOTE,
          over=["inputs", "configurations"],
          assumptions=["The hook is a stand-in that accepts exactly when it is handed the accounts it asks for; it changes no other account."]),
    claim("C09", "Creating a wrapped mint produces the documented mint and backpointer",
          "A successful creation leaves, at the documented address derived from the unwrapped mint and the chosen token program, an initialized mint with zero supply, "
          "the unwrapped mint's decimals, the derived mint authority, and the documented freeze authority and extensions. The backpointer account at its documented "
          "address names the unwrapped mint, and both accounts are rent-exempt and belong to the right program.",
          "every unwrapped mint state, decimals, authority and extension set, both wrapped token programs, and every account a caller can supply",
          "Tests create a few mints; a wrong field for particular decimals, authorities or accounts would be permanent.",
          [P, L, "program/src/mint_customizer/default_token_2022.rs", "program/src/state.rs"],
          ["derivation of both addresses and comparison with the accounts given", "mint customizer", "decimals read from the unwrapped mint"],
          CREATE_SRC, CREATE_BOUNDS, CREATE_OUT, NOTE,
          state=[dict(name="backpointer", meaning="names the unwrapped mint of a wrapped mint", where="account owned by the wrap program")]),
    claim("C10", "Creating again never disturbs an existing pair",
          "When the wrapped mint already exists, creation changes no account: with the idempotent flag it succeeds on a proper existing pair, without the flag it fails. "
          "No caller can use creation to reset, replace or re-initialize an existing wrapped mint or backpointer.",
          "every state of the existing mint and backpointer, both values of the flag and every account a caller can supply",
          "Tests repeat one creation; the guarantee covers every state the existing pair can be in.",
          [P], ["early return on existing accounts with the idempotent flag", "failure without it"],
          CREATE_SRC, CREATE_BOUNDS, CREATE_OUT, NOTE),
    claim("C11", "Anyone can create the wrapped mint of any unwrapped mint",
          "Given funded, unallocated accounts at the documented addresses, creation of the wrapped mint succeeds for any initialized unwrapped mint of either token "
          "program and either wrapped token program, without any signature. Extra lamports sent there beforehand cannot block it.",
          "every decimals, supply, authority and extension of the unwrapped mint and every amount of lamports at or above the rent-exempt minimum",
          "Tests fund accounts with the exact minimum of a few mints; a mint that cannot be wrapped, or can be blocked by a griefer, would go unnoticed.",
          [P, "program/src/mint_customizer/default_token_2022.rs"], ["allocate and assign signed by the derived addresses instead of create_account", "extension initialization"],
          CREATE_SRC, CREATE_BOUNDS, CREATE_OUT, NOTE),
    claim("C12", "Closing a stuck escrow is safe",
          "Closing an escrow succeeds only for the documented escrow of the pair, only when it holds no tokens and only when its layout differs from what the unwrapped mint now "
          "requires. Its lamports all go to the destination, and no other account changes.",
          "every state, length, balance, state byte and extension of the escrow and mint, and every account and alias a caller can supply",
          "Tests close one stuck and one healthy escrow; closing a healthy or funded escrow in some other state would interrupt wrapping or lose funds.",
          [P], ["address checks", "comparison of the account's extensions with those the mint requires", "close instruction signed by the mint authority"],
          CLOSE_SRC, CLOSE_BOUNDS, CLOSE_OUT, NOTE),
    claim("C13", "A stuck empty escrow can be closed",
          "When the documented escrow of a Token-2022 pair is empty but lacks the extensions its mint now requires, anyone can close it to any destination without a signature. "
          "No lamport amount, authority or decimals of mint or escrow prevents it.",
          "every lamport amount, supply, decimals and authority of the mint, and state of the wrapped mint",
          "A test closes one escrow; if another state blocked closing, the pair could never be wrapped again.",
          [P], ["comparison of required extensions", "close instruction signed by the mint authority"],
          CLOSE_SRC, CLOSE_BOUNDS, CLOSE_OUT, NOTE),
    claim("C14", "Synced Token-2022 metadata says exactly what the source says",
          "After a successful synchronisation to a Token-2022 wrapped mint, its name, symbol, URI and additional fields are exactly those of the unwrapped mint's metadata source, "
          "with no field lost and none left over from before, and only the derived authority may edit them. Anyone can synchronise whenever the source is well formed and the mint is funded, without a signature.",
          "every text, number, flag and choice in the source record, every earlier content of the target, every caller",
          "Tests compare a few records; a field that is dropped, kept, mis-formatted or left stale only for some values would mislead every reader of the wrapped token.",
          [P, MD, MX], ["conversion of Metaplex records to fields", "field by field update and removal of leftovers", "initialization of new metadata"],
          SYNC_SRC, SYNC_BOUNDS, SYNC_OUT, NOTE, state=SYNC_STATE, assumptions=SYNC_ASSUME),
    claim("C15", "Synced Metaplex metadata says what the source says",
          "After a successful synchronisation to an SPL Token wrapped mint, its Metaplex record carries the name, symbol, URI, seller fee, creators, collection and uses of the source, creators and "
          "collection marked unverified, stays editable, and only the derived authority may edit it. Anyone can synchronise whenever the source fits into a Metaplex record and the authority is funded, "
          "whatever was verified in the source.",
          "every text, number, flag and choice in the source record, every earlier content of the target, every caller",
          "Tests compare a few records; a source whose verified flags, fee or uses block the synchronisation or come out changed is not among them.",
          [P, MD, MX], ["conversion of Metaplex records to fields and back", "creation or update of the record signed by the derived authority"],
          SYNC_SRC, SYNC_BOUNDS, SYNC_OUT, NOTE, state=SYNC_STATE, assumptions=SYNC_ASSUME),
    claim("C16", "Metadata comes only from the source the unwrapped mint designates",
          "Synchronisation succeeds only when the metadata is taken from the place the unwrapped mint designates: itself, the account its metadata pointer names, or its Metaplex record when it has no pointer; "
          "an external program's answer counts only if that program owns the named account and gave the answer itself. "
          "Only the metadata of the documented wrapped mint changes, and no other program is handed the derived authority's signature.",
          "every owner, pointer, program, answer and account a caller can supply or leave out, and pairwise aliasing",
          "Tests try a handful of wrong accounts; the guarantee is that no account list whatsoever lets a caller put other text on a wrapped mint.",
          [P, MD, MX], ["resolution of the metadata pointer", "owner and address checks on the source", "check of who set the return data", "address checks on mint, authority and record"],
          SYNC_SRC, SYNC_BOUNDS, SYNC_OUT, NOTE, state=SYNC_STATE, assumptions=SYNC_ASSUME),
    claim("C17", "Only the mint authority sets the canonical pointer, to what it asked for",
          "Setting the canonical pointer succeeds exactly when the unwrapped mint's authority signs and the pointer account is the documented address; it then holds exactly the requested "
          "program address and belongs to the wrap program. A first call on a funded address and a later update both work, and nothing else changes.",
          "every mint state and authority, requested program, pointer content, lamport amount and account list a caller can supply",
          "Tests set a pointer twice; authority and aliasing must be right for every mint and account.",
          [P, "program/src/state.rs"], ["mint authority and signature check", "pointer address derivation", "allocate and assign on first use"],
          "the entrypoint, instruction decoding, the canonical pointer handler, address derivation and every library routine they reach",
          "one transaction with one instruction; every address, owner, authority, signer and writable bit, lamport amount, mint field and pointer byte symbolic; mints of both token programs, plain and with extensions; pairwise aliasing; up to four accounts left out",
          "mints with other extensions; compute limits; several instructions in one transaction", NOTE,
          state=[dict(name="canonical pointer", meaning="program the mint authority endorses for wrapping", where="account derived from the unwrapped mint")]),
    claim("C18", "Exactly the documented instruction encodings are accepted",
          "Instruction data is decoded exactly when it is one of the documented encodings (tag, length and flag values included), into exactly the values it encodes, and encoding these again gives the "
          "same bytes. Any other data is refused by the program, whatever accounts come with it.",
          "every byte string of the stated lengths, and with accounts that would let some instruction succeed, every byte string that is not an encoding",
          "Tests pack and unpack one value per instruction; trailing bytes, other flag values and truncated data are not tried.",
          [I, P], ["match on the tag and the exact length of the rest", "little-endian amounts"],
          "instruction decoding and encoding, the entrypoint and the dispatch of the processor",
          "instruction data of every length from 0 to 80 bytes and some up to 300 (thorough: every length up to 320), every byte symbolic; with account lists that satisfy each instruction: lengths 0 to 10 and 32 to 34",
          "longer instruction data", NOTE),
    claim("C19", "Instruction builders list the documented accounts",
          "Every instruction builder returns an instruction for the given program with exactly the documented accounts in the documented order and with the documented signer and writable flags, and with the "
          "documented data. Multisignature signers make the holder a non-signer, and optional accounts appear exactly when given.",
          "every address and amount, every combination of optional accounts, and the stated numbers of signers",
          "Tests use builders with the accounts they create; a swapped pair of accounts or a wrong flag may only matter for callers with other accounts.",
          [I], ["account metas and packed data"],
          "the seven instruction builders and the library code they call, compiled to bytecode",
          "every address and amount symbolic; 0 to 4 and 11 multisignature signers (thorough: 0 to 12); every combination of the optional accounts",
          "more signers than the token programs allow", NOTE),
    claim("C20", "Address helpers give the documented derivations",
          "The public helpers for the wrapped mint, mint authority, backpointer, escrow and canonical pointer return exactly the addresses derived from the documented seeds, under this program or the given "
          "deployment of it. They agree with the addresses the program itself insists on.",
          "every mint, token program and deployment address",
          "Tests derive a few addresses with the same helpers they check; a helper that is wrong for forks or for one token program would send funds to an address nobody controls.",
          [L], ["seed construction and address derivation"],
          "the ten address helpers and the library code they call, compiled to bytecode",
          "every address symbolic; the derivation itself is an uninterpreted injective function of seeds and program",
          "seeds for which no address off the curve exists", NOTE,
          assumptions=["Address derivation has no collisions."]),
    claim("C21", "The shipped mint customizers produce the mints they document",
          "Creating a wrapped mint with the compliance, the extension-free or the default customizer leaves a mint with exactly the documented extensions and authorities, and otherwise everything the default "
          "creation guarantees. Creation with each of them works for any unwrapped mint when funded.",
          "every unwrapped mint state, decimals, authority and extension set, both wrapped token programs, and every account a caller can supply",
          "Tests run each customizer on one mint; forks rely on them for every mint.",
          [P, "program/src/mint_customizer/compliance.rs", "program/src/mint_customizer/no_extensions.rs", "program/src/mint_customizer/default_token_2022.rs"],
          ["space computation, extension initialization and freeze authority of each customizer"],
          "mint creation instantiated with each customizer, and every library routine it reaches", CREATE_BOUNDS, CREATE_OUT, NOTE),
    claim("C22", "No history leaves wrapped tokens unbacked",
          "Starting from a freshly created pair, no sequence of this program's instructions, whoever sends them with whatever accounts, leaves more wrapped tokens in existence than tokens in the pair's escrow, "
          "or lets the escrow be closed while wrapped tokens exist. None of them hands the escrow, the wrapped mint or anyone's token account to another owner, authority or delegate, or moves a balance it is not about.",
          "every history of the program's instructions with every account list, through an induction over single instructions from every sound state",
          "Tests run short honest sequences; the guarantee is what makes wrapped tokens worth anything and must survive every sequence and every account list.",
          [P, L], ["minting only what the escrow receives", "burning before releasing", "escrow closed only when empty", "supply zero at creation"],
          "every instruction handler (wrap, unwrap, creation, closing, both metadata handlers, pointer), the entrypoint, address derivation and every library routine they reach",
          "one induction step: one instruction from every state in which supply is at most the escrow balance and both belong to the derived authority; account layouts and aliases as for the single properties; creation is the base case", 
          "histories in which the unwrapped mint's own permanent delegate or other token program features take tokens out of the escrow (no program can prevent that); layouts beyond the listed ones; metadata edits are represented by what the metadata programs document", NOTE,
          over=["inputs", "histories"],
          state=[dict(name="escrow balance", meaning="backs the wrapped supply", where="unwrapped token account of the mint authority"),
                 dict(name="wrapped supply", meaning="claims on the escrow", where="wrapped mint")],
          assumptions=["Between this program's instructions the token programs let nobody mint the wrapped token or spend from the escrow, whose authority is a derived address, save the unwrapped mint's own powers."]),
]

CLAIMS = {c["id"]: c for c in _L}
NOT_APPLICABLE = []
NA_PROPS = [
    dict(id="C23", title="The command line client sends what was asked for",
         statement="Each subcommand of the command line client either reports an error or sends exactly the documented instructions for the mints, accounts, "
                   "amounts, signers and token programs given, creating missing accounts only where documented. What it prints is what it sent.",
         over=["inputs", "configurations"],
         text="every combination of arguments, key sources, offline signing options and chain states the client can be run against",
         why="The tests run each subcommand once or twice against a local validator; options combine in many more ways.",
         files=["clients/cli/src/wrap.rs", "clients/cli/src/unwrap.rs", "clients/cli/src/create_mint.rs", "clients/cli/src/common.rs"],
         mechanism=["defaults for accounts and programs are resolved by queries to the chain"], state=[],
         reason="Every subcommand is an async function interleaved with network queries inside tokio and the RPC client library; that code cannot be encoded for a solver within reach. "
                "The builders, address helpers and decoding it relies on are decided by C18, C19 and C20."),
    dict(id="C24", title="The JavaScript client agrees with the program",
         statement="The JavaScript client's instruction encoders, decoders and address helpers agree with the program's documented encodings and derivations, and its "
                   "helpers for wrapping, unwrapping and multisignature signing build transactions that do what their names say.",
         over=["inputs", "configurations"],
         text="every value of every instruction argument, every address and every signer arrangement",
         why="Its tests run a few transactions against a validator.",
         files=["clients/js/src/wrap.ts", "clients/js/src/unwrap.ts", "clients/js/src/utilities.ts", "clients/js/src/create-mint.ts"],
         mechanism=["encoders generated from the interface description", "asynchronous address derivation"], state=[],
         reason="TypeScript on top of asynchronous cryptography and RPC: none of the installed tools executes it symbolically, and a translation by hand would check the translation, not the code."),
]
