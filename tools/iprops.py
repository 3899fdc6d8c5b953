CJ = "clients/js/src/generated/"; CR = "clients/rust/src/generated/"
TI = "The stable tests build and decode no instruction and read no client, so a disagreement between the program and its clients stays unseen. "
def iw(t): return TI + "The property ranges over %s, which no set of examples covers." % t
IPROPS = [
("I01", "Every client encodes exactly the payload the program decodes", "For every instruction and every argument value, the bytes produced by the program crate's own constructor, by the Rust client and by the JavaScript client are the published instruction number followed by the published arguments in order; the program decodes exactly those bytes to those values and refuses truncated or overlong payloads and unknown instruction numbers; the IDL lists the same numbers and arguments.", ["inputs"], "every instruction and every argument value", [IX, "idls/mplx_rewards.json", CR + "instructions/mod.rs", CJ + "instructions/index.ts", I + "mod.rs"], [("program encoding", IX + ": RewardsInstruction"), ("client encodings", CR + "instructions/*.rs: *InstructionData, *InstructionArgs; " + CJ + "instructions/*.ts"), ("decoding", I + "mod.rs: process_instruction")], iw("every argument value")),
("I02", "Every client passes the accounts the program expects, with the flags it needs", "For every instruction, the program crate's own constructor, the Rust client, the JavaScript client, the IDL and the annotations list the same accounts in the same order; an account is marked as signer exactly when the program requires its signature, and every account the program writes (or passes on as writable) is marked writable; defaults stand for the genuine system, token and rent addresses.", ["inputs", "configurations"], "every instruction, account and way of building it", [IX, "idls/mplx_rewards.json", CR + "instructions/mod.rs", CJ + "instructions/index.ts"] + proc("claim", "close_mining", "fill_vault"), [("account lists", IX + ": constructor functions; " + CR + "instructions/*.rs; " + CJ + "instructions/*.ts"), ("required signatures and writes", I + "*.rs")], iw("every account, flag and way of building an instruction")),
("I03", "Errors keep their published codes everywhere", "Each program error is reported as its published custom code, and the Rust client, the JavaScript client's lookups by code and by name, and the IDL give that code the same name; an unknown code resolves to nothing.", ["inputs"], "every error and every code", [P + "error.rs", CR + "errors/mplx_rewards.rs", CJ + "errors/mplxRewards.ts", "idls/mplx_rewards.json"], [("codes", P + "error.rs: MplxRewardsError"), ("lookups", CJ + "errors/mplxRewards.ts")], iw("every error code")),
("I04", "Clients read stored accounts as the program stores them", "For every stored mining and reward pool, the Rust client's decoder, the JavaScript client's decoder, filters and sizes, and the IDL place every field at the byte offset and width at which the program stores it; lockup periods and account types keep their published numbers.", ["inputs"], "every stored account content", [RP, MN, CR + "accounts/mining.rs", CR + "accounts/reward_pool.rs", CJ + "accounts/mining.ts", CJ + "accounts/rewardPool.ts", "idls/mplx_rewards.json"], [("layout", RP + ": RewardPool; " + MN + ": Mining"), ("decoders", CR + "accounts/*.rs; " + CJ + "accounts/*.ts")], iw("every stored byte")),
("I05", "Everyone uses the same program and derives the same addresses", "The program's own id, the clients' program ids and the IDL's address are the published one, every built instruction goes to it, and the address helpers derive minings from \"mining\", owner and pool and vaults from \"vault\", pool and mint under the given program.", ["inputs", "configurations"], "every owner, pool, mint and instruction", [P + "lib.rs", UT, CR + "programs.rs", CJ + "programs/mplxRewards.ts", "clients/js/src/plugin.ts", "idls/mplx_rewards.json"], [("id", P + "lib.rs: declare_id"), ("derivations", UT + ": find_mining_program_address, find_vault_program_address, create_mining_address"), ("client ids", CR + "programs.rs; " + CJ + "programs/mplxRewards.ts")], iw("every derived address and every instruction")),
("I06", "Builders and CPI helpers pass on exactly what they were given", "Every builder and CPI helper puts each account and argument it was given into its own place, refuses to build when a required one is missing, applies only the published defaults, appends the extra accounts with the flags they were given, and a CPI invokes the program with exactly that instruction, those account infos and the given signer seeds and passes on its result.", ["inputs", "fault_sequences"], "every set of given, missing and extra accounts and arguments, and every result of the call", [CR + "instructions/claim.rs", CR + "instructions/extend_stake.rs", CR + "instructions/slash.rs", CR + "instructions/initialize_pool.rs", IX], [("builders", CR + "instructions/*.rs: *Builder, *CpiBuilder"), ("CPI", CR + "instructions/*.rs: *Cpi::invoke_signed_with_remaining_accounts"), ("constructors", IX)], iw("every subset of inputs and every extra account")),
("I07", "The helpers other programs link against answer by the published rules", "Of the functions the program crate exports to other programs: a lockup period's multiplier, number of days and end date follow the published table (none: multiplier 0, no days, no end); the account checks for signer, owner, key, size, initialisation and account type accept exactly when the condition they name holds; account type numbers convert both ways and unpublished ones are rejected; the read-only and mutable views of a stored account give the header and the ordered store found at the published offsets; and asking for a delegate's mining yields none exactly when the delegate is the mining itself.", ["inputs"], "every account content, key, date and number", [P + "utils.rs", P + "asserts.rs", P + "state/mod.rs", RP, MN], [("lockup helpers", "LockupPeriod::{multiplier,days,end_timestamp}"), ("account checks", "asserts.rs and utils.rs"), ("views", "Wrapped*Pool, Wrapped*Mining from_bytes"), ("delegate mining", "get_delegate_mining")], iw("every account content, key, date and number")),
]
ITECH = {i: "value-numbering dataflow over both crates' MIR plus abstract evaluation of the TypeScript client's syntax tree against one published interface" for i in ("I01", "I02", "I04", "I05")}
ITECH["I03"] = "enumeration of type-checked error types, value-numbering dataflow over the conversions, abstract evaluation of the TypeScript lookups"
ITECH["I06"] = "value-numbering dataflow over the client crate's MIR (builders and CPI helpers) on arbitrary inputs"
ITECH["I07"] = "value-numbering dataflow over the exported functions' MIR on arbitrary inputs"
