"""Which units decide which property, the anchors each needs, and what the evidence says about it."""
import os, re, tomllib
from . import program, iface, js

LEVEL = "other"
HOW = ("Value-numbering dataflow over the program's compiler IR (MIR, dumped from the current working tree by a rustc driver): each listed unit is one instruction "
       "with its account/payload partition, interpreted abstractly from the entry point with joins at merges (gated terms, no path enumeration, no solver); loops are summarised as folds over the account's ordered map. "
       "An obligation compares the derived state or success condition at the successful return with the rule's term.")
ASSUME = ["the Solana runtime enforces signer flags, account ownership, atomic failure and rollback", "sokoban's red-black tree implements an ordered map with insert failing only when full",
          "account data written by this program earlier satisfies the layout the program itself writes", "the clock is non-negative", "rustc nightly's MIR matches the semantics of the compiled program"]
EXTRA = {"E01": ["errors returned by called programs and by library decoders are passed on unjudged", "a comparison nothing documented rests on guards the size of a number (L01 judges whether it refuses more)"], "C09": ["release builds keep overflow-checks = true (checked in Cargo.toml)"]}
ANCHOR_ADTS = {"RewardsInstruction": None, "Mining": 9, "RewardPool": 10, "LockupPeriod": None}

def anchors(prog, cli, prop):
    out = []
    if prop in program.NEEDS:
        from engine import model
        if model.find_entry(prog) is None: out.append(("entry", "the program's process_instruction entry point was not found"))
        for a, n in ANCHOR_ADTS.items():
            i = prog.find_adt(a)
            if i is None: out.append((a, "type %s was not found" % a)); continue
            if n is not None and len(prog.T(i)["v"][0]["f"]) != n: out.append((a, "type %s no longer has its %d fields" % (a, n)))
        i = prog.find_adt("RewardsInstruction")
        if i is not None:
            vs = {v["n"]: len(v["f"]) for v in prog.T(i)["v"]}
            for nm in program.NEEDS[prop]:
                if nm not in vs: out.append((nm, "instruction %s was not found" % nm))
                elif vs[nm] != len(program.ARGS[nm]): out.append((nm, "instruction %s no longer has its %d payload fields" % (nm, len(program.ARGS[nm]))))
    return out
# the units that read the client crate (or the program's own encoders): which property needs which
CLIENT = {"I01": ("struct", "cpi", "decode", "entry", "native"), "I02": ("struct", "cpi", "native", "context"), "I03": (), "I04": (), "I05": ("struct", "cpi", "native"), "I06": ("builder", "cpibuilder", "cpi", "native")}
ONPROG = ("context", "native", "decode", "entry", "layoutp", "codesp")
def jobs(prop, prog):
    """(kind, which dump, unit, partition)"""
    out = []
    for i in program.NEEDS.get(prop, []):
        ps = program.partitions(i)
        if prop == "I02" and i == "ExtendStake": ps = [p for p in ps if p["cases"] == {"old_lockup": 1, "new_lockup": 3}]
        for p in ps: out.append(("errors" if prop == "E01" else "program", "prog", i, p))
    # the slow units first
    out.sort(key=lambda j: -(j[2] == "ExtendStake") * 10 - (False in j[3].get("same", {}).values()))
    for k in CLIENT.get(prop, ()):
        for i in iface.ORDER: out.append(("client", "prog" if k in ONPROG else "cli", i, {"kind": k}))
    if prop == "I04":
        for a in iface.LAYOUT: out += [("client", s, a, {"kind": "layout"}) for s in ("prog", "cli")]
    if prop == "I07": out.append(("client", "prog", "helpers", {"kind": "helpers"}))
    if prop in ("I03", "I04", "I05"): out += [("client", s, "codes", {"kind": "codes"}) for s in ("prog", "cli")]
    return out
def direct(prop, prog, cli, repo):
    if prop == "C09":
        t = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))
        on = t.get("profile", {}).get("release", {}).get("overflow-checks") is True
        yield ("Cargo.toml:profile.release.overflow-checks", "proved" if on else "violated", "release builds do not check integer overflow", [["Cargo.toml", "profile.release"]])
    for x in js.check(prop, repo): yield x
IHOW = ("Both crates' MIR is abstractly interpreted (value numbering, joins, no path enumeration, no solver): each of the client's constructions of each instruction (plain struct, CPI helper with up to two remaining accounts, both builders), "
        "the program crate's own constructor and the program's decoder run on arbitrary inputs, and the resulting program id, account list, flags and payload bytes are compared term by term with the published interface. "
        "The TypeScript client is evaluated on symbolic inputs over its syntax tree (TypeScript compiler API), and the IDL and the shank annotations are read as data; each is compared with the same published interface.")
IASSUME = ["borsh's primitive encodings and umi's serializers follow their specifications", "the tables in rules/iface.py are the interface published at the pinned commit", "rustc nightly's MIR matches the semantics of the compiled crates"]
def describe(prop):
    if prop.startswith("I"): return LEVEL, IHOW + (" The program's entry point is analysed as for the other properties: its success condition must imply the published signer flags, and every account it writes must be published writable." if prop == "I02" else ""), (ASSUME if prop == "I02" else []) + IASSUME
    return LEVEL, HOW, ASSUME + EXTRA.get(prop, [])
