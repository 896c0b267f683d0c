# Which harnesses decide which property.
ASAN = ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
VARIANTS = {
    # /repo's sources and the harness under ASan and UBSan, assertions on.
    "asan": {"repo_flags": ASAN, "harness_flags": ASAN, "link_flags": ASAN + ["-rdynamic"]},
    # Assertions on, no sanitizer: for large enumerations of pure computations.
    "plain": {"repo_flags": ["-O1"], "harness_flags": ["-O1"], "link_flags": ["-rdynamic"]},
    # /repo's sources with clang's thread instrumentation, served by the harness's own scheduler and race detector. Out-of-line
    # string members are instantiated (and so instrumented) too.
    "sched": {"repo_flags": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], "harness_flags": ["-O1"], "link_flags": ["-rdynamic"]},
}
EXH = "bounded exhaustive enumeration (stateless model checking) of the real code against "
CHECKS = {
    "C01": {"harnesses": [("verify", "asan")], "technique": EXH + "a reference verdict",
            "note": "Every token/key-set pair of the stated alphabets is decided exactly; key material, claims and key-set lengths beyond them are not covered. Trusts BoringSSL's primitives."},
    "C02": {"harnesses": [("verify", "asan")], "technique": EXH + "a reference verdict",
            "note": "All key sets up to three slots over the slot alphabet, in every order. Trusts BoringSSL's primitives."},
    "C03": {"harnesses": [("verify", "asan")], "technique": EXH + "a reference verdict",
            "note": "Same enumeration as C01 and C02, with the exact reason compared."},
    "C04": {"harnesses": [("verify", "asan")], "technique": EXH + "the rule that no edited token verifies",
            "note": "All single edits of the listed classes on one genuine token per algorithm, pairs of bit flips for HMAC. ECDSA (r, n-s) malleability and the PSS salt length are excluded."},
    "C18": {"harnesses": [("verify", "plain"), ("verify", "asan")], "technique": EXH + "a history-free reference verdict",
            "note": "All operation sequences up to the stated depth over confusable tokens and key sets, with memory that is reused at once."},
    "C05": {"harnesses": [("claims", "plain")], "technique": EXH + "128-bit integer arithmetic",
            "note": "All combinations of the stated boundary values; wall clock times before 1970 are out of scope."},
    "C06": {"harnesses": [("claims", "plain")], "technique": EXH + "an independent normalisation",
            "note": "All strings up to the stated length over tokens that make or almost make schemes and slashes."},
    "C07": {"harnesses": [("claims", "plain")], "technique": EXH + "the set of checks that really fail, under a controlled wall clock",
            "note": "HS256 tokens; wall clock at and after the epoch. When several checks fail any of their reasons is accepted."},
    "C21": {"harnesses": [("claims", "plain")], "technique": EXH + "an independent evaluator of paths",
            "note": "All objects up to the stated number of fields and depth."},
    "C22": {"harnesses": [("claims", "plain")], "technique": EXH + "a table of what each description must speak of",
            "note": "Complete over the enumeration; the wording is judged by key words only."},
    "C08": {"harnesses": [("parse", "plain")], "technique": EXH + "the values and faults each writing was generated with",
            "note": "All texts within three deviations of two genuine tokens. Padding, blanks and non-zero trailing bits in base64url, and integers that a double cannot hold, may be treated either way."},
    "C09": {"harnesses": [("parse", "plain")], "technique": EXH + "the set of faults each text was generated with",
            "note": "Any of several faults may be reported; a text of bad structure must be reported as such."},
    "C10": {"harnesses": [("parse", "plain")], "technique": EXH + "a fresh object that parsed the last text",
            "note": "All operation sequences up to the stated depth on two objects."},
    "C11": {"harnesses": [("keys", "asan")], "technique": EXH + "an independent evaluation of each entry",
            "note": "All entries within the stated deviations and all short lists. RSA algorithm names outside the six that start with RS or PS, kid and alg that are no texts, padded or zero-extended encodings may be kept or skipped."},
    "C12": {"harnesses": [("keys", "asan")], "technique": EXH + "the faults each input was generated with",
            "note": "Covers JWKS, certificate maps, PEM texts and additions."},
    "C13": {"harnesses": [("keys", "asan")], "technique": EXH + "a model of the set as a list",
            "note": "Texts around a PEM block, repeated blocks and the unsupported curve P-224 may load or not."},
    "C14": {"harnesses": [("keys", "plain")], "technique": EXH + "the order-free expected map, over map seeds",
            "note": "Maps of up to three members; orders are enumerated through the seed of protobuf's map."},
    "C17": {"harnesses": [("keys", "asan")], "technique": EXH + "the emptiness of the crypto error queue after every operation",
            "note": "Without allocation failures."},
    "C30": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: contents, iteration and in-use queries",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C31": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: destructor counts against the pins held",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C32": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: sums over the values held",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C33": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: a model of the eviction order",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C34": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: a model of the times, under a controlled clock",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C35": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: a model in which order-preserving lookups have no effect on order",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C36": {"harnesses": [("lru", "plain"), ("lrubig", "plain"), ("lru", "asan"), ("lrubig", "asan")], "technique": EXH + "a reference model: a model of reconfiguration",
            "note": "All operation sequences up to the stated depth over up to 4 keys, and stated patterns of many entries; a clock that never goes backwards and ticks between operations; lookups released with the options they were made with; no limit of one kind set while one of the other kind is in force."},
    "C15": {"harnesses": [("faults", "asan")], "technique": "exhaustive fault injection: every crypto allocation of every scenario made to fail, on the real code, against the fault-free result",
            "note": "Failures of the crypto library's allocator only; single failures and all suffixes (thorough: pairs and consecutive operations). A JWKS may lose single entries, everything else is all or nothing."},
    "C20": {"harnesses": [("faults", "plain")], "technique": EXH + "the balance of live allocations, with every crypto allocation failure injected",
            "note": "Caches that fill once are told from leaks by repeating each scenario five times."},
    "C19": {"harnesses": [("robust", "asan")], "technique": EXH + "sanitizers, assertions and the list of statuses",
            "note": "All texts of the stated grammars and edits; the library's code and the harness are instrumented, the prebuilt crypto, JSON and string libraries are not."},
    "C16": {"harnesses": [("conc", "sched")], "technique": "stateless exploration of all schedules up to a preemption bound on the real code under a controlled scheduler, with vector-clock race detection, against the results of running alone",
            "note": "Two and three threads; sequentially consistent interleavings; races are seen in the library's own code and the string and container code it instantiates, not inside the prebuilt crypto and JSON libraries."},
}
