"""What decides each property: the histories generated for it and the deviations from the
specification (action kind x state component) that break it."""

BUNDLE = ["SubmitBundle", "VoteBundle", "SkipUploader", "ClaimUploader"]
TALLY = ["SubmitBundle", "SkipUploader", "EndBlock"]
BLOCK = ["BeginBlock", "EndBlock", "Block"]
DELEG = ["Delegate", "WithdrawRewards", "Undelegate", "Redelegate", "CreateStaker"]
STAKER = ["CreateStaker", "UpdateMetadata", "UpdateCommission", "ClaimCommission", "JoinPool", "LeavePool"]
FUND = ["CreateFunder", "UpdateFunder", "FundPool", "DefundPool"]
POOLGOV = ["CreatePool", "UpdatePool", "DisablePool", "EnablePool", "ScheduleUpgrade", "CancelUpgrade"]
GOV = POOLGOV + ["UpdateParams"]
TEAM = ["CreateTeamAccount", "Clawback", "ClaimUnlocked", "ClaimAccountRewards", "ClaimAuthorityRewards"]
MSGS = BUNDLE + DELEG + STAKER + FUND + GOV + TEAM + ["Send", "SendPool", "SendMod", "GrantFee", "RevokeFee"]
BANK = ["bal", "mod", "pbal", "oth", "sup"]
DEL = ["dd", "de", "ds", "dl"]
ANY = ["*"]       # any state component, the outcome or a query; events are C30

# id -> profiles (name, share), rules (kinds, tags)
P = {
    "C01": dict(profiles=[("bundles", 2), ("tuned", 1), ("huge", 1), ("drain", 1), ("long", 1), ("tiny", 1), ("pools", 1)],
                rules=[(TALLY, ["fin", "pools", "prop", "ok"]), (MSGS + ["BeginBlock"], ["fin"])]),
    "C02": dict(profiles=[("bundles", 2), ("whales", 1), ("tuned", 1), ("tiny", 1), ("ties", 1), ("assembly", 1), ("crowd", 1)],
                rules=[(TALLY, ["fin", "prop", "pools", "ok"]), (["VoteBundle"], ["prop", "ok"])]),
    "C03": dict(profiles=[("bundles", 3), ("tuned", 1), ("members", 1), ("assembly", 1), ("mixed", 2)],
                rules=[(["VoteBundle"], ANY), (TALLY, ["prop"])]),
    "C04": dict(profiles=[("bundles", 3), ("tuned", 2), ("pools", 1), ("mixed", 2)],
                rules=[(BUNDLE, ["ok", "prop", "fin", "pools"])]),
    "C05": dict(profiles=[("bundles", 3), ("tiny", 2), ("members", 1), ("assembly", 1), ("crowd", 1)],
                rules=[(BUNDLE + ["EndBlock"], ["prop", "rr"]), (MSGS, ["rr"])]),
    "C06": dict(profiles=[("bundles", 3), ("members", 2), ("pools", 1), ("manypools", 1), ("drain", 1)],
                rules=[(["EndBlock"], ["prop", "fin", "val", "rr", "pools", "halt", "ok"])]),
    "C07": dict(profiles=[("bundles", 3), ("points", 2), ("members", 1), ("assembly", 1), ("crowd", 1)],
                rules=[(BUNDLE + ["EndBlock"], ["val", "ds"]), (["JoinPool"], ["val"])]),
    "C08": dict(profiles=[("bundles", 2), ("tuned", 1), ("points", 1), ("slashed", 1), ("crowd", 1), ("tiny", 1), ("drain", 1)],
                rules=[(BUNDLE + ["EndBlock"], ["dd", "ds", "de", "dl", "val", "mod", "oth"]), (MSGS + ["BeginBlock"], ["ds"]), (["Undelegate", "Redelegate", "BeginBlock"], ["dl"])]),
    "C09": dict(profiles=[("bundles", 1), ("whales", 1), ("charges", 2), ("drain", 1), ("tuned", 1), ("funders", 1), ("stake", 1), ("mixed", 1)],
                rules=[(TALLY, BANK + ["stk", "dd", "fundings", "halt", "ok"])]),
    "C10": dict(profiles=[("funders", 2), ("charges", 3), ("bundles", 1), ("crowd", 1), ("whales", 1)],
                rules=[(TALLY, ["fundings", "fstate", "mod"])]),
    "C11": dict(profiles=[("funders", 3), ("charges", 2), ("whitelist", 2), ("whales", 1)],
                rules=[(FUND + ["SendMod"], ANY), (TALLY, ["fundings", "fstate"])]),
    "C12": dict(profiles=[("funders", 3), ("whitelist", 4), ("whales", 1)],
                rules=[(FUND, ANY)]),
    "C13": dict(profiles=[("stake", 2), ("tiny", 1), ("ties", 1),  ("long", 1), ("bundles", 1), ("crowd", 1), ("whales", 1)],
                rules=[(DELEG + TALLY + ["BeginBlock"], DEL), (DELEG, ["bal", "mod", "ok"]), (["BeginBlock"], ["bal"]), (TALLY, ["mod"])]),
    "C14": dict(profiles=[("stake", 2), ("tiny", 1), ("ties", 1), ("slashed", 1), ("crowd", 1), ("drain", 1), ("whales", 1)],
                rules=[(DELEG + ["BeginBlock"], DEL + ["ok", "bal", "mod"]), (TALLY, ["dd", "ds", "dl"])]),
    "C15": dict(profiles=[("stake", 2), ("times", 3), ("crowd", 1), ("tiny", 1), ("drain", 1)],
                rules=[(["Undelegate"], ANY), (["BeginBlock"], ["uq", "dl", "dd", "bal"]), (MSGS + ["EndBlock"], ["uq"])]),
    "C16": dict(profiles=[("stake", 2), ("times", 2), ("spells", 1), ("crowd", 1), ("tiny", 1), ("drain", 1)],
                rules=[(["Redelegate"], ANY), (MSGS + BLOCK, ["rc"])]),
    "C17": dict(profiles=[("members", 3), ("vacant", 1), ("times", 1), ("crowd", 1), ("mixed", 2)],
                rules=[(["Query"], ["slots"]), (["JoinPool", "LeavePool"], ANY), (["BeginBlock", "DisablePool"] + TALLY, ["val", "lq"])]),
    "C18": dict(profiles=[("members", 2), ("stake", 1), ("bundles", 1), ("crowd", 1), ("whales", 1), ("times", 2)],
                rules=[(["UpdateCommission", "ClaimCommission", "UpdateMetadata", "CreateStaker"], ANY), (["BeginBlock"], ["stk"]), (MSGS + BLOCK, ["cq"]), (["SendMod"], ANY),
                       (TALLY, ["stk"])]),
    "C19": dict(profiles=[("pools", 3), ("qpools", 2), ("members", 1), ("bundles", 1), ("ties", 1)],
                rules=[(BUNDLE, ["ok"]), (["EndBlock"], ["prop"]), (["BeginBlock"], ["pbal"]), (["Query"], ["pool", "pools", "canVote", "canPropose", "voteStatus"])]),
    "C20": dict(profiles=[("pools", 5), ("manypools", 1), ("mixed", 2)],
                rules=[(POOLGOV, ANY), (["EndBlock"], ["pools"]), (BUNDLE, ["ok"])]),
    "C21": dict(profiles=[("params", 6), ("pools", 2)],
                rules=[(GOV, ["ok", "pr", "pools"]), (["UpdateParams"], ANY), (MSGS, ["pr"]), (["Batch"], ["ok", "pr", "pools"])]),
    "C22": dict(profiles=[("pools", 4), ("manypools", 1), ("bundles", 2), ("team", 1)],
                rules=[(["BeginBlock"], BANK + ["team", "ok", "halt"]), (MSGS + ["EndBlock"], ["pbal"])]),
    "C23": dict(profiles=[("team", 8)],
                rules=[(TEAM + ["SendMod"], ANY), (["BeginBlock"], ["team", "mod"])]),
    "C24": dict(profiles=[("fees", 7), ("mixed", 1)],
                rules=[(["EndBlock"], ["mod", "sup", "bal"]), (["Block", "GrantFee", "RevokeFee"], ANY)]),
    "C25": dict(profiles=[("mixed", 3), ("funders", 1), ("stake", 1), ("team", 1), ("bundles", 1), ("fees", 1)],
                rules=[(MSGS + BLOCK, BANK), (MSGS, ["refused"]), (["Batch"], ANY)]),
    # the imported chain against the specification and against the chain that went on
    "C26": dict(profiles=[("reimport", 6), ("recrowd", 1), ("relong", 1)], replicas="state",
                rules=[(["Reimport"], ANY)]),
    "C27": dict(profiles=[("queries", 4), ("qlists", 2), ("qteam", 1), ("qcrowd", 1), ("qlong", 1)],
                rules=[(["Query"], ANY)]),
    "C29": dict(profiles=[("govs", 8)],
                rules=[(["Query"], ["govWeights", "govDelegations"])]),
    "C28": dict(profiles=[("restart", 2), ("charges", 2), ("mixed", 1), ("pools", 1), ("params", 1), ("fees", 1)], replicas="hash",
                rules=[(["BeginBlock", "EndBlock"], ["ok", "halt"]), (["Block", "Batch"], ["halt"]), (["Restart"], ANY)]),
    "C30": dict(profiles=[("bundles", 1), ("crowd", 1), ("members", 1), ("charges", 1), ("stake", 1), ("pools", 1), ("params", 1), ("team", 1), ("fees", 1)],
                rules=[(MSGS + BLOCK, ["ev"])]),
    "C31": dict(profiles=[("upgrade", 8)],
                rules=[(["Upgrade"], ANY + ["ev"]), (["Query"], ["govProposals"])]),
    "C32": dict(profiles=[("genesis", 8)],
                rules=[(["Query"], ["genesis"])]),
    "C33": dict(profiles=[("signed", 8)],
                rules=[(["Block"], ["seq"])]),
}
PREDS = {}
for c in P:
    PREDS[c] = ["inv:" + c, "step:" + c]
NUM = list(P)
STEPS = {"team": 120, "fees": 160, "funders": 200, "params": 200, "bundles": 300, "stake": 300, "queries": 400, "qlists": 500, "qteam": 200, "points": 300, "times": 300, "whitelist": 200, "restart": 300, "reimport": 300, "long": 4000, "tuned": 300, "whales": 300, "upgrade": 150, "crowd": 1000, "manypools": 400, "qcrowd": 800, "qlong": 4000, "recrowd": 800, "relong": 4000, "genesis": 500, "signed": 200, "assembly": 1000, "huge": 300, "spells": 400, "slashed": 500, "ties": 300}

# scenarios TLC explores for a property (spec/MC.tla), with their share of the budget
MC = {"quick": 9000, "thorough": 120000}     # transitions
for c, m in {
    "C01": dict(votes=2, pools=1), "C02": dict(votes=1), "C03": dict(votes=2, members=1), "C04": dict(votes=2, pools=1), "C05": dict(votes=1, members=1),
    "C06": dict(votes=2, members=1, pools=1), "C07": dict(votes=2, members=1), "C08": dict(votes=2, stake=1), "C09": dict(votes=2, stake=1),
    "C10": dict(funders=2, votes=1), "C11": dict(funders=1), "C12": dict(funders=2, slots=1), "C13": dict(stake=1), "C14": dict(stake=1), "C15": dict(stake=1),
    "C16": dict(stake=1), "C17": dict(members=4, places=1), "C18": dict(members=2, stake=1), "C19": dict(pools=3, inflation=1), "C20": dict(pools=1),
    "C21": dict(params=3, pools=1), "C22": dict(inflation=1), "C23": dict(team=1), "C25": dict(votes=1, stake=1, funders=1, team=1),
    "C27": dict(stake=1, members=1, votes=1, funders=1), "C28": dict(votes=1, pools=1, inflation=1), "C29": dict(members=1, stake=1),
    "C30": dict(votes=2, slots=1, members=1, stake=1, pools=1, params=1),
}.items():
    P[c]["mc"] = m
for c in ("C19", "C27", "C29"):
    P[c]["ask"] = True
