"""Which harness entries decide which property."""
MSGP = "github.com/tinylib/msgp/msgp"
ZSTD = "github.com/klauspost/compress/zstd"
FLATE = "github.com/klauspost/compress/flate"
RA = "github.com/klauspost/readahead"
SHUT = "github.com/klauspost/shutdown2"
ALL = [MSGP, ZSTD, FLATE, RA, SHUT]
TOML = "github.com/BurntSushi/toml"

# Paths that only large inputs take are reached by lowering the threshold in a copy of the file: (file, regex, replacement).
# A run is skipped, with a note in the evidence, when the threshold is not found exactly once.
SORT = [("elements.go", r"(len\(\w+\)\s*<\s*)25000\b", r"\g<1>4"), ("elements.go", r"SplitSize\(2500\)", "SplitSize(2)")]
POPULATE = [("list.go", r"(insertLimit\s*=\s*)100000\b", r"\g<1>2")]
BADGER = [("blobstore/badgerstore/badger.go", r"(queueSize\s*=\s*)100\b", r"\g<1>2")]
QUEUE = [("manager.go", r"(wantSplit:\s*make\(chan \*List, )1000\b", r"\g<1>1")]

PROPS = {
    "C01": dict(runs=[dict(group="coll", entries="VH_C01_", budget=dict(quick=60, thorough=500))]),
    "C02": dict(runs=[dict(group="coll", entries="VH_C02_", budget=dict(quick=90, thorough=500)),
                      dict(group="coll", entries="VH_L02_", budget=dict(quick=60, thorough=200), subst=SORT)]),
    "C03": dict(runs=[dict(group="coll", entries="VH_C03_", budget=dict(quick=90, thorough=600))]),
    "C24": dict(runs=[dict(group="coll", entries="VH_C24_", budget=dict(quick=60, thorough=200))]),
    "C04": dict(runs=[dict(group="lists", entries="VH_C04_", models=[MSGP], budget=dict(quick=120, thorough=700))]),
    "C05": dict(runs=[dict(group="lists", entries="VH_C05_", models=[MSGP], budget=dict(quick=120, thorough=700))]),
    "C06": dict(runs=[dict(group="lists", entries="VH_C06_", models=[MSGP], budget=dict(quick=120, thorough=700))]),
    "C07": dict(runs=[dict(group="lists", entries="VH_C07_", models=[MSGP], budget=dict(quick=180, thorough=450)),
                      dict(group="lists", entries="VH_L07_", models=[MSGP], budget=dict(quick=60, thorough=150), subst=POPULATE)]),
    "C10": dict(runs=[dict(group="lists", entries="VH_C10_", models=[MSGP], budget=dict(quick=120, thorough=600))]),
    "C08": dict(runs=[dict(group="lists", entries="VH_C08_", models=[MSGP], budget=dict(quick=60, thorough=500))]),
    "C09": dict(runs=[dict(group="lists", entries="VH_C09_", models=[MSGP], budget=dict(quick=60, thorough=500))]),
    "C13": dict(runs=[dict(group="lists", entries="VH_C13_", models=[MSGP], budget=dict(quick=60, thorough=500))]),
    "C15": dict(runs=[dict(group="lists", entries="VH_C15_", models=[MSGP], budget=dict(quick=200, thorough=800))]),
    "C16": dict(runs=[dict(group="lists", entries="VH_C16_", models=[MSGP], budget=dict(quick=250, thorough=800))]),
    "C17": dict(runs=[dict(group="lists", entries="VH_C17_", models=[MSGP], budget=dict(quick=270, thorough=560))]),
    "C29": dict(runs=[dict(group="lists", entries="VH_C29_", models=[MSGP], budget=dict(quick=120, thorough=500))]),
    "C11": dict(runs=[dict(group="codec", entries="VH_C11_", budget=dict(quick=120, thorough=560))]),
    "C12": dict(runs=[dict(group="codec", entries="VH_C12_", models=[ZSTD, FLATE, RA], budget=dict(quick=300, thorough=560))]),
    "C14": dict(runs=[dict(group="bkp", entries="VH_C14_", models=ALL, stands=["aws"], budget=dict(quick=60, thorough=400))]),
    "C18": dict(runs=[dict(group="reg", entries="VH_C18_", models=ALL, budget=dict(quick=90, thorough=500))]),
    "C19": dict(runs=[dict(group="reg", entries="VH_C19_", models=ALL, budget=dict(quick=60, thorough=400))]),
    "C20": dict(runs=[dict(group="blob", entries="VH_C20_", budget=dict(quick=150, thorough=560))]),
    "C21": dict(runs=[dict(group="blob", entries="VH_C21_", budget=dict(quick=60, thorough=400))]),
    "C22": dict(runs=[dict(group="blob", entries="VH_C22_", budget=dict(quick=60, thorough=400))]),
    "C23": dict(runs=[dict(group="blob", entries="VH_C23_", budget=dict(quick=60, thorough=400))]),
    "C25": dict(runs=[dict(group="apih", entries="VH_C25_", models=[MSGP], budget=dict(quick=90, thorough=400))]),
    "C27": dict(runs=[dict(group="apic", entries="VH_C27_", models=[MSGP], budget=dict(quick=250, thorough=500))]),
    "C26": dict(runs=[dict(group="apih", entries="VH_C26_", models=[MSGP], budget=dict(quick=60, thorough=400))]),
    "C30": dict(runs=[dict(group="eng", entries="VH_C30_", stands=["badger", "bbolt", "aerospike", "aws"], subst=BADGER, plain=True, budget=dict(quick=120, thorough=500))]),
    "C31": dict(runs=[dict(group="lists", entries="VH_C31_", models=[MSGP], budget=dict(quick=90, thorough=500))]),
    "C32": dict(runs=[dict(group="lists", entries="VH_C32_", models=[MSGP], budget=dict(quick=200, thorough=540))]),
    "C35": dict(runs=[dict(group="apic", entries="VH_C35_", models=ALL, budget=dict(quick=120, thorough=400))]),
    "C34": dict(runs=[dict(group="srv", entries="VH_C34_", models=ALL + [TOML], stands=["badger", "bbolt", "aerospike"], budget=dict(quick=150, thorough=500))]),
    "C36": dict(runs=[dict(group="lists", entries="VH_C36_", models=[MSGP], races=True, budget=dict(quick=200, thorough=400))]),
    "C33": dict(runs=[dict(group="reg", entries="VH_C33_", models=ALL, budget=dict(quick=200, thorough=500)),
                      dict(group="reg", entries="VH_L33_", models=ALL, subst=QUEUE, budget=dict(quick=60, thorough=60))]),
}

NA = {
    "C28": "Durability across a crash is a property of the external badger/bolt/aerospike/dynamo/S3 engines and the file system, whose code (mmap, syscalls, network protocols) cannot be encoded; rankdb contains only thin adapters.",
}
