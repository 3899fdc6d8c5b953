"""The program's published interface: what every client, builder and interface description must agree on."""
PROGRAM_ID = "BF5PatmRTQDgEKoXR7iHRbkibEEi83nVM38cUKWzQcTR"
TOKEN_ID = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"
SYSTEM_ID = "11111111111111111111111111111111"
RENT_ID = "SysvarRent111111111111111111111111111111111"
DEFAULTS = {"rent": RENT_ID, "token_program": TOKEN_ID, "system_program": SYSTEM_ID}
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def unb58(s):
    n = 0
    for c in s: n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big").hex()

# (published name, must sign, writable: True must / False must not / None either)
S, W, R = True, True, False
ACCOUNTS = {
    "InitializePool": [("reward_pool", R, W), ("reward_mint", R, R), ("vault", R, W), ("payer", S, W), ("deposit_authority", S, R), ("rent", R, R), ("token_program", R, R), ("system_program", R, R)],
    "FillVault": [("reward_pool", R, W), ("reward_mint", R, R), ("vault", R, W), ("fill_authority", S, R), ("source_token_account", R, W), ("token_program", R, R)],
    "InitializeMining": [("reward_pool", R, None), ("mining", R, W), ("payer", S, W), ("system_program", R, R)],
    "DepositMining": [("reward_pool", R, W), ("mining", R, W), ("deposit_authority", S, R), ("delegate_mining", R, W)],
    "WithdrawMining": [("reward_pool", R, W), ("mining", R, W), ("deposit_authority", S, R), ("delegate_mining", R, W)],
    "Claim": [("reward_pool", R, R), ("reward_mint", R, R), ("vault", R, W), ("mining", R, W), ("mining_owner", S, R), ("deposit_authority", S, R), ("mining_owner_reward_token_account", R, W), ("token_program", R, R)],
    "ExtendStake": [("reward_pool", R, W), ("mining", R, W), ("deposit_authority", S, R), ("delegate_mining", R, W)],
    "DistributeRewards": [("reward_pool", R, W), ("distribute_authority", S, R)],
    "CloseMining": [("mining", R, W), ("mining_owner", S, R), ("target_account", R, W), ("deposit_authority", S, R), ("reward_pool", R, None)],
    "ChangeDelegate": [("reward_pool", R, W), ("mining", R, W), ("deposit_authority", S, R), ("mining_owner", S, R), ("old_delegate_mining", R, W), ("new_delegate_mining", R, W)],
    "Slash": [("deposit_authority", S, R), ("reward_pool", R, W), ("mining", R, W)],
    "DecreaseRewards": [("deposit_authority", S, R), ("reward_pool", R, W), ("mining", R, W)],
}
U, K, L, O = "u64", "publicKey", "LockupPeriod", "option<u64>"
ARGS = {
    "InitializePool": [("fill_authority", K), ("distribute_authority", K)],
    "FillVault": [("rewards", U), ("distribution_ends_at", U)],
    "InitializeMining": [("mining_owner", K)],
    "DepositMining": [("amount", U), ("lockup_period", L), ("mining_owner", K), ("delegate", K)],
    "WithdrawMining": [("amount", U), ("mining_owner", K), ("delegate", K)],
    "Claim": [],
    "ExtendStake": [("old_lockup_period", L), ("new_lockup_period", L), ("deposit_start_ts", U), ("base_amount", U), ("additional_amount", U), ("mining_owner", K), ("delegate", K)],
    "DistributeRewards": [], "CloseMining": [],
    "ChangeDelegate": [("staked_amount", U), ("new_delegate", K)],
    "Slash": [("mining_owner", K), ("slash_amount_in_native", U), ("slash_amount_multiplied_by_period", U), ("stake_expiration_date", O)],
    "DecreaseRewards": [("mining_owner", K), ("decreased_weighted_stake_number", U)],
}
ORDER = ["InitializePool", "FillVault", "InitializeMining", "DepositMining", "WithdrawMining", "Claim", "ExtendStake", "DistributeRewards", "CloseMining", "ChangeDelegate", "Slash", "DecreaseRewards"]
DISC = {n: i for i, n in enumerate(ORDER)}
LOCKUP = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"]
# the program crate's own builders: the published meaning of each positional parameter (after the program id)
NATIVE = {
    "InitializePool": ["reward_pool", "reward_mint", "vault", "payer", "deposit_authority", "@fill_authority", "@distribute_authority"],
    "FillVault": ["reward_pool", "reward_mint", "vault", "fill_authority", "source_token_account", "@rewards", "@distribution_ends_at"],
    "InitializeMining": ["reward_pool", "mining", "payer", "@mining_owner"],
    "DepositMining": ["reward_pool", "mining", "deposit_authority", "delegate_mining", "@amount", "@lockup_period", "@mining_owner", "@delegate"],
    "WithdrawMining": ["reward_pool", "mining", "deposit_authority", "delegate_mining", "@amount", "@mining_owner", "@delegate"],
    "Claim": ["reward_pool", "reward_mint", "vault", "mining", "mining_owner", "deposit_authority", "mining_owner_reward_token_account"],
    "ExtendStake": ["reward_pool", "mining", "deposit_authority", "delegate_mining", "@old_lockup_period", "@new_lockup_period", "@deposit_start_ts", "@base_amount", "@additional_amount", "@mining_owner", "@delegate"],
    "DistributeRewards": ["reward_pool", "distribute_authority"],
    "CloseMining": ["mining", "mining_owner", "target_account", "deposit_authority", "reward_pool"],
    "ChangeDelegate": ["reward_pool", "mining", "deposit_authority", "mining_owner", "old_delegate_mining", "new_delegate_mining", "@new_delegate", "@staked_amount"],
    "Slash": ["deposit_authority", "reward_pool", "mining", "@mining_owner", "@slash_amount_in_native", "@slash_amount_multiplied_by_period", "@stake_expiration_date"],
    "DecreaseRewards": ["deposit_authority", "reward_pool", "mining", "@mining_owner", "@decreased_weighted_stake_number"],
}
def snake(n): return "".join(("_" if c.isupper() and i else "") + c.lower() for i, c in enumerate(n))
def camel(n):
    p = n.split("_")
    return p[0] + "".join(x[:1].upper() + x[1:] for x in p[1:])

# error codes are part of the interface: position is the code
ERRORS = ["InvalidAccountOwner", "MathOverflow", "RewardsNoDeposits", "InvalidLockupPeriod", "DistributionInThePast", "InvalidPrimitiveTypesConversion", "RewardsMustBeClaimed",
          "RewardsMustBeGreaterThanZero", "StakeFromOthersMustBeZero", "NoWeightedStakeModifiersAtADate", "DelegatesAreTheSame", "RetreivingZeroCopyAccountFailire", "AlreadyInitialized",
          "InvalidMining", "DerivationError", "DecreaseRewardsTooBig"]
# account layouts: (name, type), in order; then the total size of the fixed part and of the whole account
MINING = [("reward_pool", K), ("owner", K), ("reward_mint", K), ("index_with_precision", "u128"), ("share", U), ("unclaimed_rewards", U), ("stake_from_others", U), ("bump", "u8"), ("data", "u8x7")]
POOL = [("deposit_authority", K), ("distribute_authority", K), ("fill_authority", K), ("reward_mint", K), ("index_with_precision", "u128"), ("total_share", U), ("distribution_ends_at", U), ("tokens_available_for_distribution", U), ("token_account_bump", "u8"), ("data", "u8x7")]
WIDTH = {K: 32, "u128": 16, U: 8, "u8": 1, "u8x7": 7}
LAYOUT = {"Mining": (MINING, 144, 1776), "RewardPool": (POOL, 176, 64480)}
# what a stored account is made of: (offset, size) of the record and of each ordered list behind it
VIEWS = [("Mining", "mining", [(0, 144), (144, 1632)]), ("RewardPool", "reward_pool", [(0, 176), (176, 11712), (11888, 52592)])]
# lockup period: multiplier, days
LOCKUP_TABLE = {"None": (0, None), "Flex": (1, 5), "ThreeMonths": (2, 90), "SixMonths": (4, 180), "OneYear": (6, 365)}
ACCOUNT_TYPE = ["Uninitialized", "RewardPool", "Mining"]
