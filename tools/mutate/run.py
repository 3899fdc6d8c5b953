"""Development helper (no check uses it): mutates the program's sources one token or statement at a time in scratch clones and lists
the mutants on which no obligation is violated.  usage: [MUT_LINES=A-B] [MUT_INSTR=X,Y] run.py WORKERS OUT [FILE-REGEX]"""
import os, sys, re, json, random, subprocess, multiprocessing, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, V)
SRC = "programs/rewards/src"
ALL = ["DepositMining", "WithdrawMining", "Slash", "Claim", "FillVault", "DistributeRewards", "ChangeDelegate", "CloseMining", "InitializeMining", "InitializePool", "DecreaseRewards"]
FILES = {"instructions/change_delegate.rs": ["ChangeDelegate"], "instructions/claim.rs": ["Claim"], "instructions/close_mining.rs": ["CloseMining"], "instructions/deposit_mining.rs": ["DepositMining"],
         "instructions/distribute_rewards.rs": ["DistributeRewards"], "instructions/extend_stake.rs": ["ExtendStake"], "instructions/fill_vault.rs": ["FillVault"], "instructions/initialize_mining.rs": ["InitializeMining"],
         "instructions/initialize_pool.rs": ["InitializePool"], "instructions/withdraw_mining.rs": ["WithdrawMining"], "instructions/penalties/slash.rs": ["Slash"], "instructions/penalties/decrease_rewards.rs": ["DecreaseRewards"],
         "instructions/mod.rs": ALL + ["ExtendStake"], "entrypoint.rs": ALL, "asserts.rs": ALL, "utils.rs": ALL, "state/mod.rs": ALL, "state/mining.rs": ALL, "state/reward_pool.rs": ALL}
SWAP = [(r"(?<![<>=!-])<=(?!=)", "<"), (r"(?<![<>=!-])>=(?!=)", ">"), (r" < ", " <= "), (r" > ", " >= "), (r" > ", " < "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
        (r"\.safe_add\(", ".safe_sub("), (r"\.safe_sub\(", ".safe_add("), (r"\.safe_mul\(", ".safe_div("), (r"\.safe_div\(", ".safe_mul("), (r"saturating_sub", "wrapping_sub"), (r"checked_sub", "checked_add"), (r"checked_add", "checked_sub"),
        (r"checked_mul", "checked_add"), (r"checked_div", "checked_rem"), (r"next_signer", "next_unchecked"), (r"next_with_owner\((\w+), [^)]*(\(\))?\)\?", r"next_unchecked(\1)?"), (r"next_with_key\((\w+), .*\)\?", r"next_unchecked(\1)?"),
        (r"next_uninitialized", "next_unchecked"), (r"next_with_owner\((\w+), program_id\)", r"next_with_owner(\1, &spl_token::id())"), (r"break;", "continue;"), (r"break;", "{}"), (r"\.rev\(\)", ""), (r" - ", " + "), (r" \+ ", " - "), (r" % ", " / "), (r" / ", " * "), (r" \* ", " + "),
        (r"Some\(delegate_mining\)", "None"), (r"\bfill_authority\b", "distribute_authority"), (r"\bdistribute_authority\b", "deposit_authority"), (r"\bdeposit_authority\b", "fill_authority"),
        (r"\bmining_owner\b", "delegate"), (r"\bdelegate\b", "mining_owner"), (r"\bmining\.key\b", "reward_pool.key"), (r"\breward_pool\.key\b", "mining.key"), (r"\bcurr_ts\b", "beginning_of_the_day"), (r"\bbeginning_of_the_day\b", "curr_ts"),
        (r"get_right", "get_left"), (r"get_left", "get_right"), (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"is_signer", "is_writable"), (r"\.all\(", ".any("), (r"stake_from_others", "unclaimed_rewards"), (r"unclaimed_rewards", "stake_from_others"), (r"\bshare\b", "stake_from_others"),
        (r"\btotal_share\b", "tokens_available_for_distribution"), (r"weighted_stake_diff\b", "weighted_stake"), (r"\bamount\b", "0"), (r"\bstaked_amount\b", "1"), (r"slash_amount_in_native", "slash_amount_multiplied_by_period"), (r"slash_amount_multiplied_by_period", "slash_amount_in_native"),
        (r"base_amount", "additional_amount"), (r"additional_amount", "base_amount"), (r"old_lockup_period", "new_lockup_period"), (r"new_lockup_period", "old_lockup_period"), (r"LockupPeriod::Flex", "LockupPeriod::ThreeMonths"), (r"ThreeMonths", "SixMonths"), (r"OneYear", "SixMonths"),
        (r"\bnew_delegate_mining\b", "old_delegate_mining"), (r"\bold_delegate_mining\b", "new_delegate_mining"), (r"deposit_start_ts", "curr_ts"), (r"latest_index", "index"), (r"u128::from\(rewards\)", "u128::from(total_share)"), (r"return Err\(", "let _: ProgramResult = Err("), (r"PRECISION", "1u128"),
        (r"\bpayer\b", "deposit_authority"), (r"vault\.", "source_token_account."), (r"\breward_mint\b", "vault"), (r"\bsource_token_account\b", "vault"), (r"program_id", "&spl_token::id()"), (r"b\"vault\"", 'b"mining"'), (r"\"mining\"", '"vault"')]
def body(text):
    """source lines that belong to the program, not to its tests"""
    i = len(text)
    for m in re.finditer(r"(?m)^(#\[[^\n]*\]\n)*mod tests? \{", text): i = min(i, m.start())
    return i
def mutants(f, text):
    end = body(text); seen = set()
    def ok(a):
        ln = text[text.rfind("\n", 0, a) + 1:text.find("\n", a)].strip()
        return not ln.startswith(("//", "use ", "#", "msg!", "mod ", "pub(crate) use"))
    def put(a, b, new, what):
        t = text[:a] + new + text[b:]
        if t != text and t not in seen: seen.add(t); return (f, a, b, new, what)
    for pat, new in SWAP:
        for m in re.finditer(pat, text[:end]):
            if ok(m.start()):
                x = put(m.start(), m.end(), m.expand(new), "%s -> %s" % (m.group(0), m.expand(new)))
                if x: yield x
    for m in re.finditer(r"(?<![\w.\"#])(\d[\d_]*)(?![\w.\"])", text[:end]):
        if ok(m.start()):
            v = int(m.group(1).replace("_", ""))
            for n in (v + 1, v - 1 if v else None):
                if n is None: continue
                x = put(m.start(1), m.end(1), str(n), "%d -> %d" % (v, n))
                if x: yield x
    # whole statements removed, neighbours swapped
    ls = text[:end].split("\n"); pos = [0]
    for l in ls: pos.append(pos[-1] + len(l) + 1)
    st = []; i = 0
    while i < len(ls):
        ind = len(ls[i]) - len(ls[i].lstrip()); s = ls[i].strip()
        if ind >= 4 and s and not s.startswith(("//", "use ", "}", "msg!", "#", "fn ", "pub ", "let ", ".", ")", "...", "match ")) or (ind >= 4 and s.startswith("let ")):
            j = i
            while j < len(ls):
                t = ls[j].rstrip(); ij = len(t) - len(t.lstrip())
                if t.endswith(";") and (j == i or ij == ind or ij == ind + 4 and t.strip().startswith(".")) : break
                if j > i and t.strip() == "}" and ij == ind: break
                if j > i and t and ij < ind: j = -1; break
                j += 1
            if 0 <= j < len(ls): st.append((i, j, s.startswith("let ")))
        i += 1
    for i, j, let in st:
        if not let:
            x = put(pos[i], pos[j + 1], "", "delete: " + " ".join(l.strip() for l in ls[i:j + 1])[:120])
            if x: yield x
    by = {i: (i, j) for i, j, _ in st}
    for i, j, _ in st:
        if j + 1 in by:
            k, l = by[j + 1]
            x = put(pos[i], pos[l + 1], "\n".join(ls[k:l + 1] + ls[i:j + 1]) + "\n", "swap: " + ls[i].strip()[:60] + " <-> " + ls[k].strip()[:60])
            if x: yield x
def slim(j):
    """ExtendStake has 50 slices; six of them stand for the rest here"""
    c = j[3].get("cases", {})
    return j[2] != "ExtendStake" or (c["old_lockup"], c["new_lockup"]) in ((1, 3), (3, 1), (4, 4))
def work(k, todo, out, lock):
    W = "/tmp/mw%d" % k
    os.environ["VERIF_REPO"] = W
    if not os.path.exists(W): subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"]); subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])
    import build, check
    from rules import catalog
    build.REPO = W; check.UNIT_SECONDS = 200
    os.cpu_count = lambda: int(os.environ.get("MUT_PROCS", "2"))
    ids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    while True:
        try: m = todo.get(timeout=2)
        except Exception: return
        f, a, b, new, what = m; t0 = time.time()
        p = os.path.join(W, SRC, f); orig = open(p).read()
        open(p, "w").write(orig[:a] + new + orig[b:])
        r = {"file": f, "line": orig[:a].count("\n") + 1, "what": what, "at": [a, b, new]}
        try:
            try: (prog, cli), h = build.dump()
            except build.BuildError as e: r["res"] = "stillborn"; raise StopIteration
            check._D.clear(); d = check.load(prog)
            bad = []; und = set()
            for pid in ids:
                for an in catalog.anchors(d, d, pid): bad.append((pid, "anchor"))
            for ins in (os.environ["MUT_INSTR"].split(",") if "MUT_INSTR" in os.environ else FILES[f] + ["iface"]):
                if bad: break
                jobs = []
                for pid in ids:
                    for j in catalog.jobs(pid, d):
                        if j[1] == "prog" and (j[0] in ("program", "errors") and j[2] == ins and slim(j) or ins == "iface" and j[0] == "client" and j[3].get("kind") in ("native", "decode", "entry", "layoutp", "codesp", "layout", "codes")):
                            j = (j[0], prog, j[2], j[3])
                            if j not in jobs: jobs.append(j)
                for j, x in zip(jobs, check.run_jobs(jobs, h + "-" + check.codehash() + "-mut")):
                    if "error" in x: und.add("ERR " + check.label(j[2], j[3]) + " " + x["error"]); continue
                    for o in x["obs"]:
                        if o[2] == "violated": bad.append((o[0], ins, o[1], o[3][:80]))
                        if o[2] == "undecided": und.add(o[0] + "/" + o[1])
            r["res"] = "killed" if bad else "undecided" if und else "SURVIVED"
            r["by"] = bad[:3]; r["und"] = sorted(und)[:8]
        except StopIteration: pass
        except Exception as e: r["res"] = "error"; r["by"] = repr(e)[:300]
        open(p, "w").write(orig)
        r["s"] = round(time.time() - t0)
        with lock: open(out, "a").write(json.dumps(r) + "\n")
def main():
    n = int(sys.argv[1]); out = sys.argv[2]; rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else "")
    ms = []
    for f in FILES:
        if rx.search(f): ms += list(mutants(f, open("/repo/" + SRC + "/" + f).read()))
    done = set()
    if os.path.exists(out):
        for l in open(out): x = json.loads(l); done.add((x["file"], tuple(x["at"])))
    ms = [m for m in ms if (m[0], (m[1], m[2], m[3])) not in done]
    if "MUT_LINES" in os.environ:
        lo, hi = map(int, os.environ["MUT_LINES"].split("-"))
        ms = [m for m in ms if lo <= open("/repo/" + SRC + "/" + m[0]).read()[:m[1]].count("\n") + 1 <= hi]
    random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    if "MUT_COUNT" in os.environ: return
    q = multiprocessing.Queue(); [q.put(m) for m in ms]; lock = multiprocessing.Lock()
    ps = [multiprocessing.Process(target=work, args=(k, q, out, lock)) for k in range(n)]
    [p.start() for p in ps]; [p.join() for p in ps]
if __name__ == "__main__": main()
