COMMIT = ("The commit protocol (FdbCommit: every append, sync and rename, kills, power loss, concurrent views) is model-checked with TLC over all "
          "interleavings of 2-3 processes, deviations from it must be refused; recorded file-system histories of real processes (all system "
          "calls, one order, scheduled or free-running, with kills) and the continuations executed after a crash at every change must be behaviours of the same "
          "specification. Assumes atomic single write(2) calls and durable directory entries.")
for _p in ("F03", "F04", "F05"):
    CLAIMED[_p] = (TV, "model_checking", COMMIT)
CLAIMED["F18"] = CLAIMED["F01"]
CLAIMED["F20"] = CLAIMED["F01"]
CLAIMED["F21"] = CLAIMED["F01"]
CLAIMED["F12"] = CLAIMED["F01"]
CLAIMED["F14"] = CLAIMED["F01"]
SCHEMA = ("The rule language and the keyword types are specified in TLA+ (FdbSchema, FdbTypes) as functions from schemas, keys and spellings to outcomes; TLC checks their laws "
          "(one outcome, round trip, distinct keys apart, canonical values stand for themselves) for all small schemas and generated spellings. Seeded schemas, keys, requests and "
          "spellings are run on the real library, TLC evaluates the specification on the same schema and compares every outcome, listing and field found.")
CLAIMED["F08"] = (TV, "model_checking", SCHEMA)
CLAIMED["F19"] = (TV, "model_checking", SCHEMA)
