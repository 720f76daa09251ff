#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYMEX = "symbolic execution of the real Python source, branch conditions and assertions decided by Z3"
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique=SYMEX, note="", claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


def m(name, where):
    return dict(name=name, where=where)


COMMON = ("Holds for every value within the bounds printed in the evidence file; trusted: the rewriting of the source into its symbolic form "
          "(checked by replaying a sample of explored paths on the real code), Z3. ")

prop("C01", "Tagged streams survive the wire format",
     "Reading a tagged stream that was written with quotes and backslashes in values escaped gives back exactly the token types, field names and field "
     "values that were written, in order, for every Unicode value, however the spaces between the parts are laid out. Reported token and value positions "
     "are the exact places they came from, and what was read before with the same reader has no influence.",
     ["inputs", "histories"], "all streams of typed tokens with arbitrary field values; the parser reused after any earlier text",
     "tests read some dozen fixed streams; a value may be any Unicode text",
     ["tn/token_parser.py"], [m("parser", "tn/token_parser.py TokenParser.parse/parse_value"), m("writer", "tn/token_parser.py Token.string")],
     note=COMMON + "Names and keys up to 3 characters, values up to 4 arbitrary characters.")
prop("C02", "Reordering is a canonical permutation of fields",
     "Reordering a tagged stream keeps every token and every field with its value exactly once; fields named in the configured order of that token type "
     "come first in that order, the others follow in the order they arrived, and a token that asks for its order to be preserved keeps it. Reordering "
     "again changes nothing, and the reported position of each reordered token delimits exactly its text.",
     ["inputs", "configurations"], "all token streams, canonical orders and positions of the preserve flag",
     "tests cover the orders the shipped grammars emit, not every field coincidence pattern",
     ["tn/token_parser.py"], [m("reorder", "tn/token_parser.py TokenParser.reorder_with_spans"), m("canonical fields", "tn/token_parser.py Token.string/append")],
     note=COMMON + "Up to 4 fields, 3 tokens, symbolic keys.")
prop("C03", "Malformed tagged streams are rejected, never misread",
     "A text that is not a well-formed tagged stream (missing brace, quote, colon or name, a value that never ends, trailing text) or that repeats a "
     "field within a token is refused with a value error; it never loops, never raises another kind of error and is never silently truncated. Well-formed "
     "streams are never refused.",
     ["inputs"], "every text up to the bound, plus every short insertion into a well-formed stream",
     "tests check a handful of malformed strings; the input space is all strings",
     ["tn/token_parser.py"], [m("parser", "tn/token_parser.py TokenParser.parse"), m("duplicates", "tn/token_parser.py Token.append")],
     note=COMMON + "Every string up to 6 code points, and up to 3-5 arbitrary characters at 22 places of a well-formed stream.")
prop("C04", "Token spans are traced exactly through transducers",
     "For each token, the reported part of the output is what the transducer emits while it is reading that token (late output between tokens counts for the "
     "earlier one, blanks between tokens for none), and the reported part of the input is what was consumed while it was writing that token, in whole characters, in order and "
     "without overlap. Spans that cannot be right (out of range, overlapping, descending) and paths that are not linear or do not cover the text are refused.",
     ["inputs"], "every interleaving of consumed and emitted bytes, every position of token boundaries, 1- to 4-byte characters",
     "tests trace the paths of a few sentences; which arc emits what is decided by epsilon placement in compiled graphs",
     ["tn/alignment.py"], [m("output spans", "tn/alignment.py transduce_with_spans"), m("input spans", "tn/alignment.py trace_input_spans")],
     note=COMMON + "The transducer path is symbolic (stand-in for the FST library).")
prop("C05", "N-best normalization is exact and duplicate-free",
     "The candidates returned for n are the n distinct outputs with the lowest joint cost, where a reading's cost is its tagging weight plus how much worse "
     "the chosen verbalization is than that tagging's best; cheapest first, ties by tagging order and then verbalization order. Asking for more only "
     "appends, readings that cannot be verbalized are skipped, no output is returned twice, and an n that is not a positive integer is refused.",
     ["inputs"], "all weights including ties, all coincidences of outputs between readings, all n",
     "tests compare n-best lists of a few sentences; ordering bugs need particular weight and duplicate patterns",
     ["tn/processor.py"], [m("best-first search", "tn/processor.py Processor._normalization_candidates"), m("lazy unique paths", "tn/processor.py _UniqueOutputPathStream"), m("argument check", "tn/processor.py Processor._validate_nbest")],
     note=COMMON + "Weights are reals; the FST library's shortest paths are a stand-in with symbolic weights.")
prop("C06", "Normalization mappings explain the whole change",
     "Every mapping names a token's exact input and output spans with the texts at those places, classified as equal, deleted or replaced by comparing the two texts; "
     "equal ones appear only on request, changed ones always. Mappings come in order without overlap, belong to the returned output, and replaying them on the "
     "input gives that output when the text between them is unchanged.",
     ["inputs"], "all token sequences and texts, with and without identity mappings, for each returned candidate",
     "tests check mappings of chosen sentences",
     ["tn/processor.py", "tn/alignment.py"], [m("mapping", "tn/processor.py Processor._normalize_candidate_with_mapping"), m("entry point", "tn/processor.py Processor.normalize_with_mapping")],
     note=COMMON)
prop("C07", "Different pipelines never share a graph cache entry",
     "Two requests use the same cache entry only if pipeline prefix, token order, builder, every option and the grammar sources all agree (options of different "
     "type or value, or under other names, never agree; the order options are listed in does not matter). An entry always lies directly inside the cache root "
     "the caller chose, whatever the prefix, or the request is refused; without a choice the platform's user cache folder is used.",
     ["configurations", "inputs"], "all pairs of cache requests and all prefixes",
     "a collision is a property of pairs of configurations; tests build a few",
     ["tn/cache.py", "tn/processor.py"], [m("identity digest", "tn/cache.py CacheBundle"), m("default directory", "tn/cache.py default_cache_dir")],
     note=COMMON + "SHA-256 treated as collision free.")
prop("C08", "A damaged or foreign cache entry is never loaded",
     "Graphs are loaded from the cache only when the entry is complete, untampered and describes exactly the request: any change of a graph's bytes, size or "
     "digest, a missing, extra, linked or special file, or a wrong, missing or wrongly typed description makes it a miss. What is loaded is the matching pair "
     "one writer published, even when files are replaced while they are read or another process publishes meanwhile.",
     ["inputs", "fault_sequences", "schedules"], "every single tampering of a bundle, short or racing reads, every interleaving with one publisher",
     "tests damage a few bundles; the guarantee is about every byte and every moment",
     ["tn/cache.py"], [m("verification", "tn/cache.py CacheBundle.load and helpers")],
     note=COMMON + "File system is an in-memory POSIX model; real files are used in replays.")
prop("C09", "Publishing a cache entry is atomic and crash safe",
     "Whatever the moment a publication is cut off (process death, power loss, or an I/O error), afterwards a load gives either the complete old entry, the "
     "complete new one, or a miss, never a mixture, and the next run can always publish again. A failed publication reports the error and does not destroy an entry "
     "that was valid before, and a concurrent reader sees an old, a new or no entry.",
     ["crash_points", "fault_sequences", "schedules"], "every operation of a publication as crash or fault point, with and without loss of unsynced data",
     "tests inject failures at a few chosen calls",
     ["tn/cache.py"], [m("publication", "tn/cache.py CacheBundle.publish"), m("recovery", "tn/cache.py CacheBundle.recover_residuals")],
     note=COMMON + "File system is an in-memory POSIX model with explicit durability.")
prop("C10", "A build reuses or replaces the cache entry correctly",
     "A processor that finds a valid entry uses it without building; otherwise, or when told to overwrite, it builds, publishes and uses graphs equal to what it published. "
     "Entries are changed only while the entry's lock is held, an entry another process completed while waiting is reused, and grammar sources changing "
     "during a build make it fail without publishing. In-memory mode touches no file.",
     ["histories", "schedules"], "all prior states of the entry, with and without overwrite, with other processes' actions in between",
     "tests run some of these sequences; the lock discipline is invisible to them",
     ["tn/processor.py", "tn/cache.py"], [m("build or load", "tn/processor.py Processor.build_fst")],
     note=COMMON)
prop("C11", "Cache locks exclude, time out and are released",
     "While one holder has an entry's lock nobody else obtains it, and entries do not block each other. Waiting ends with a timeout error no earlier than the given time and "
     "no later than one attempt after it, with any monotonic clock; an unusable timeout is refused. The lock is released however the protected work ends, and lock "
     "errors other than contention are reported at once.",
     ["schedules", "fault_sequences", "inputs"], "all sequences of lock outcomes, clocks and timeouts",
     "tests use one timeout and one contender",
     ["tn/cache.py"], [m("lock", "tn/cache.py CacheBundle.lock / lock helpers")],
     note=COMMON)
prop("C12", "Cache clean-up deletes only its own files",
     "Clean-up of damaged or left-over entries removes only this cache's own entries, and of those only when they contain nothing but regular files with the names a "
     "bundle has; it never follows a link out of the cache folder and never deletes a user's file, an unrelated folder or another entry. Swapping a folder for a "
     "link at any moment does not change that.",
     ["inputs", "schedules"], "all contents of suspicious folders and every moment for a swap",
     "tests clean up a few prepared folders",
     ["tn/cache.py"], [m("clean-up", "tn/cache.py CacheBundle.remove_invalid/recover_residuals and removal helpers")],
     note=COMMON + "Deletions happen only in the in-memory file system and in scratch directories.")
prop("C13", "Every grammar source change invalidates the cache",
     "The fingerprint of the grammar sources is the same for two source trees exactly if they hold the same production files (Python sources and data of both "
     "directions) under the same relative names with the same contents; tests, caches, the generated version file and files outside do not count.",
     ["inputs"], "all pairs of small source trees with arbitrary contents",
     "tests edit one file; collisions are about pairs of trees",
     ["tn/cache.py"], [m("fingerprint", "tn/cache.py production_source_fingerprint")],
     note=COMMON + "SHA-256 treated as collision free.")
prop("C14", "The command line configures and feeds the right pipeline",
     "Every option given on the command line reaches the selected pipeline with the value given, and options left out keep their defaults; options of another "
     "pipeline, unknown languages, non-boolean values and two inputs at once are refused. Each input line is processed once, in order, without its line ending, "
     "printing its tagging and then its normalization.",
     ["inputs", "configurations"], "all six pipelines, all spellings and option pairs, all short texts and line endings",
     "tests run a few command lines",
     ["tn/cli.py", "tn/main.py", "itn/main.py"], [m("options and streaming", "tn/cli.py")],
     note=COMMON + "argparse is executed symbolically from its own source.")
prop("C15", "Every constructor option selects its own graphs",
     "For every pipeline, two processors whose graph-relevant options differ never share cached graphs, processors with equal options always do, the documented "
     "defaults are what leaving an option out means, and no two pipelines share an entry.",
     ["configurations"], "all pairs of option assignments of all six pipelines",
     "tests construct a few configurations; forgetting an option in the cache identity only shows with two particular configurations in one cache",
     ["tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
     [m("constructors", "*/normalizer.py __init__ and cache_config")],
     note=COMMON)


def load_more():
    import importlib.util
    path = os.path.join(HERE, "tools", "spec2.py")
    if os.path.exists(path):
        s = importlib.util.spec_from_file_location("spec2", path)
        mod = importlib.util.module_from_spec(s)
        mod.prop, mod.m, mod.COMMON, mod.SYMEX = prop, m, COMMON, SYMEX
        s.loader.exec_module(mod)


load_more()
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"])), ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in P:
    if p["na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    man["checks"].append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick ./run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.py " + p["id"],
                              evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"]))
man["notes"] = ("Checks run symbolically on the source in /repo (or VF_REPO) as it is when they start; nothing is built or cached between runs. No hooks are needed in /repo.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
