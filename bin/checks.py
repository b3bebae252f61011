COMMON_ASSUMPTIONS = [
    "sampled, not exhaustive: a violation outside the generated cases is not seen",
    "Go runtime, tss-lib's mathematics, btcec/tendermint crypto and libp2p are trusted as far as the oracle does not recompute them",
]

CHECKS = {
    "C01": {"pkg": "c01", "shards": {"quick": 2, "thorough": 3}, "timeout": {"quick": 600, "thorough": 7200}},
    "C02": {"pkg": "c02", "shards": {"quick": 2, "thorough": 3}, "timeout": {"quick": 600, "thorough": 7200}},
    "C03": {"pkg": "c03"},
    "C04": {"pkg": "c04"},
    "C05": {"pkg": "c05", "split": ["^Test(Engine|FailedParty|Spoiled)$", "^Test(Protocols|Noise)$", "^TestTransport$"]},
    "C06": {"pkg": "c06", "split": ["^TestWrongShare$", "^Test(Rejected|Confirmation|ForgedNotBlamed|Modulus)$"]},
    "C07": {"pkg": "c07", "split": ["^TestRecord$", "^TestStop$"]},
    "C08": {"pkg": "c08", "split": ["^Test(NodeSync|NodeSyncBadKey|Add)$", "^TestFormation$"], "shards": {"quick": 2, "thorough": 3}},
    "C09": {"pkg": "c09"},
    "C10": {"pkg": "c10"},
    "C11": {"pkg": "c11", "shards": {"quick": 3, "thorough": 4}},
    "C12": {"pkg": "c12", "shards": {"quick": 3, "thorough": 4}},
    "C13": {"pkg": "c13"},
    "C14": {"pkg": "c14"},
    "C15": {"pkg": "c15"},
    "C16": {"pkg": "c16"},
    "C17": {"pkg": "c17"},
    "C18": {"pkg": "c18"},
    "C19": {"pkg": "c19"},
    "C20": {"pkg": "c20"},
    "C21": {"pkg": "c21"},
    "C22": {"pkg": "c22"},
    "C23": {"pkg": "c23", "mirror": {"c23/tsshttp": ("cmd/tss", "tsshttp")}},
    "C24": {"pkg": "c24", "bins": {"tss-recovery": "./cmd/tss-recovery"}},
    "C25": {"pkg": "c25"},
    "C26": {"pkg": "c26"},
    "C27": {"pkg": "c27", "split": ["^TestServe$", "^Test(Generate|Absent)$", "^TestFailed$"]},
    "C28": {"pkg": "c28", "split": ["^Test(History|Concurrent)$", "^TestNodes$"], "shards": {"quick": 3, "thorough": 3}},
    "C29": {"pkg": "c29", "split": ["^TestStart$", "^TestLate$", "^TestRejoin$"]},
    "C30": {"pkg": "c30", "split": ["^TestSign$", "^TestGenerate$"]},
    "C31": {"pkg": "c31", "bins": {"tss": "./cmd/tss"}, "preparams": True, "split": ["^TestNetwork$", "^TestAlone$"]},
    "C32": {"pkg": "c32", "shards": {"quick": 6, "thorough": 3}},
    "C33": {"pkg": "c33", "shards": {"quick": 2, "thorough": 3}},
}
