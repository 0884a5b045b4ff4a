"""
Writes properties.jsonl and MANIFEST.json from the table below (only the
properties that have a check in props/ are listed as claimed).
"""
import os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration",
         observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level,
                  observe=list(observe)))

SPLIT, AMEND, REST = "multibag/split.py", "multibag/amend.py", "multibag/restore.py"
AB, AX, AM = "multibag/access/bagit.py", "multibag/access/extended.py", "multibag/access/multibag.py"
VB, VG, VH, VM = ["multibag/validate/%s.py" % x for x in ("base", "bag", "headbag", "member")]
CONST, MK = "multibag/constants.py", "multibag/testing/mkdata.py"
TRUST = " Trusts the Python standard library and the independent readers in vlib/oracle.py."

prop("P01", "Splitting a bag and restoring the aggregation gives the source bag back",
     "For every valid bag, splitting it (with any splitter, size limits, reserved files and output names) and "
     "then restoring the aggregation gives back exactly the source's files, byte for byte, its directories "
     "(including empty ones), its payload manifest entries and its bag-info metadata, and a valid bag. This "
     "holds also when each output bag was moved or serialized as soon as it was written and the source is gone.",
     ["inputs", "configurations"],
     "all valid source bags x splitters and their parameters x names x serialized forms of the members x ways of restoring",
     "the tests split and restore one small fixture bag with ordinary names; the guarantee is over all contents, names and splits",
     [SPLIT, REST, AM, AX],
     [("SplitPlan.apply_iter", SPLIT), ("BagRestorer.restore", REST)],
     "round-trip monitor with an independent byte-level oracle over randomized hostile bags",
     "Randomized executions of the real split/restore code; no loss seen on any of them.")
prop("P02", "A split plan covers every file exactly once and the output bags match it",
     "A completed split plan assigns every payload file, every other tag file and every empty directory of the "
     "source to exactly one output bag, and reports nothing missing; a plan that is not complete reports exactly "
     "what is missing. The output bags contain exactly what the plan says.",
     ["inputs", "configurations"], "all source bags x splitters x partial plans",
     "the tests look at a few paths of one fixture; coverage and exclusivity are over all paths of all bags",
     [SPLIT, AX], [("SplitPlan.missing/required/complete_plan", SPLIT), ("nonstandard()", AX)],
     "conservation monitor: plan and outputs against an independent listing of the source",
     "Randomized sources and plans, judged path by path.")
prop("P03", "Every output bag of a split is valid and the set is a compliant aggregation",
     "Each bag written by a split is a complete and valid BagIt bag by itself with the payload hashes of the source, "
     "exactly the last one is a head bag that lists all output bags in order with itself last, and the aggregation "
     "follows the Multibag profile; also when the source already is a head bag.",
     ["inputs", "configurations"], "all valid sources x splitters x naming",
     "the tests check some tag files of one split with the library's own readers",
     [SPLIT], [("SplitPlan.apply_iter", SPLIT)],
     "independent BagIt and profile checkers run on every output bag",
     "Randomized sources; judged by checkers that share no code with the library.")
prop("P04", "Splitting keeps the size limits and packs bags as documented",
     "No output bag of a split holds more of the source's data than the maximum size unless it holds a single file that is "
     "itself larger; bags are closed once they reach the target size; files requested for the head bag end up in "
     "it; and the neighborly splitter keeps files of a directory together in listing order.",
     ["inputs", "configurations"], "all size distributions x (maximum, target, head-size) settings x reserved files",
     "the tests use a handful of sizes; limits must hold at every boundary",
     [SPLIT], [("WellPackedSplitter/NeighborlySplitter._create_plan", SPLIT)],
     "size-accounting monitor on output bags, with sizes generated at and around the limits",
     "Randomized size distributions concentrated on the boundaries.")
prop("P05", "Operations never change their inputs",
     "Splitting, amending with, restoring, validating and reading bags never modifies any byte, time stamp or mode "
     "of an input bag, at any moment; and changing, amending, restoring or removing the outputs later never changes "
     "the inputs, although files may be shared by hard links.",
     ["inputs", "histories", "configurations"], "all operations x inputs (directories and archives) x later edits of the outputs",
     "the tests do not look at the inputs afterwards, let alone during the operation or through hard links",
     [SPLIT, REST, AMEND, AM, AX], [("replicate", AX), ("save_* / bag save", AM)],
     "online file-system monitor (audit events, inode aliases) plus before/after snapshots",
     "Every write/rename/unlink/utime event of the Python level is judged when it happens, under all hard-linked names.")
prop("P06", "Restoring an aggregation follows the profile's rules for combining bags",
     "Restoring an amended aggregation gives exactly the files that the profile prescribes: for each path the copy "
     "in the last listed member bag that has it, none of the paths marked as deleted (or inside of such a "
     "directory), all directories, manifests whose entries come from the supplying bags, and the head bag's metadata without "
     "the multibag tags; the result is a valid bag.",
     ["inputs", "histories"], "all histories of amendments, deletions, re-additions x forms of the members",
     "the tests restore one fixed two-member aggregation",
     [REST, AMEND, AM], [("BagRestorer.restore/_restore_from/_update_manifests/_purge", REST)],
     "reference-model monitor over random amendment histories",
     "Random histories of up to 5 versions, compared byte by byte with an independent combination of the members.")
prop("P07", "Every version of an aggregation stays restorable after later amendments",
     "After any series of amendments each earlier version can still be restored from its own head bag to exactly "
     "what it was, and no stored bag of an earlier version has changed.",
     ["histories"], "all histories of amendments, and every version in them",
     "the tests amend once and look only at the newest version",
     [AMEND, REST, AM], [("Amender", AMEND), ("BagRestorer.restore", REST)],
     "history monitor: each version's stored bags and its restoration are re-checked at the end",
     "Random histories; all versions are restored at the end.")
prop("P08", "An amendment leaves a head bag that describes the updated aggregation",
     "After an amendment the new head bag lists the previous members unchanged and in order (with their URLs, extra "
     "fields and comments), then the amending bags, then itself; it records the versions it deprecates and all paths still "
     "deleted; and the amending bags' own content stays as it was and valid.",
     ["inputs", "histories"], "all histories of amendments with function or class interface",
     "the tests check names in one amendment; fields, order, deprecations and deletions accumulate over histories",
     [AMEND, AM], [("Amender.init_from_amendee/add_amending_bag/finalize", AMEND), ("MemberInfo.format", AM)],
     "model-based monitor of the tag files after every step of a history",
     "Random histories with hostile names and metadata.")
prop("P09", "The file lookup points to the bag that supplies each file",
     "For every version of an aggregation, looking a payload file up in its head bag names the member bag whose copy is the "
     "one used when restoring, through every view of the head bag (directory or serialized), and the per-member listings agree with it.",
     ["inputs", "histories"], "all histories, all payload paths",
     "the tests look two paths up",
     [AM, AMEND, SPLIT], [("update_for_member / lookup_file / files_in_member", AM)],
     "lookup monitor against an independent last-supplier model",
     "Random histories, every payload path looked up.")
prop("P10", "Converting a bag to a single-bag aggregation keeps it and makes it compliant",
     "Converting any valid bag into a single-bag aggregation keeps all of its files and metadata, leaves it valid and "
     "compliant as a head bag of itself, lists exactly the requested files in the lookup, is repeatable, and can be restored to "
     "the original content.",
     ["inputs", "configurations"], "all bags x versions, PIDs, tag directories, include/exclude lists, repetitions",
     "the tests convert one fixture bag",
     [AMEND, AM], [("SingleMultibagMaker.convert / make_single_multibag", AMEND)],
     "independent checkers on randomized conversions",
     "Randomized bags and parameters.")
prop("P11", "Edits of head bag metadata behave like an editable list saved on request",
     "Any sequence of adding, replacing and removing members, lookup entries and deleted paths on a head bag is visible at "
     "once through its queries, reaches the bag's files exactly when saved, is read back identically by a fresh view, and "
     "unsaved edits never leak into the files; moving the tag directory loses nothing.",
     ["programs", "histories"], "all programs of edits, saves, re-reads and re-opens",
     "the tests run short fixed scripts; interactions of unsaved and saved state need arbitrary sequences",
     [AM], [("HeadBagUpdateMixin", AM)],
     "model-based monitor: an abstract editable list is run in lock step with the real object",
     "Random programs of up to 40 steps, state compared after steps and files after saves.")
prop("P12", "A serialized bag reads the same as the directory it was made from",
     "Opening a bag from any supported archive format gives the same name, metadata, manifest entries, file "
     "listings, existence answers, sizes, file contents, head bag information and replicated files as opening the directory itself, "
     "also for archives without entries for directories or with entries in any order.",
     ["inputs", "configurations"], "all bags x archive formats x entry layouts x query paths",
     "the tests read one prepared zip and tar of one fixture",
     [AB, AX, AM], [("open_bag / ReadOnlyBag", AB), ("_ExtendedReadOnlyMixin", AX)],
     "differential monitor of all views against an independent reader",
     "Randomized bags in zip, tar, tar.gz, tgz and other forms.")
prop("P13", "Operations give the same result on serialized bags as on directories",
     "Restoring, amending, splitting and validating give the same result whether the bags taking part are directories "
     "or serialized in any supported format.",
     ["inputs", "configurations"], "all aggregations x operations x mixes of forms",
     "the tests run each operation on one form",
     [REST, AMEND, SPLIT, VH, VM, AX], [("as_extended / open_bag", AX), ("SplitPlan.__init__", SPLIT)],
     "differential monitor: twin executions on both forms",
     "Twin runs compared byte by byte (order of manifest lines aside).")
prop("P14", "Validating a bag accepts every valid bag and reports every corruption",
     "Validation of a bag, as a directory or serialized, passes if and only if the bag is complete and its files match its "
     "manifests: any changed, missing or extra payload file, changed or missing listed tag file, wrong hash, "
     "wrong size summary, missing required file or unreadable declaration is reported, and harmless variations are not.",
     ["inputs", "fault_sequences"], "all bags x kinds and places of corruption x validation options x forms",
     "the tests corrupt one fixture in one or two ways",
     [AB, VG], [("ReadOnlyBag.validate and friends", AB), ("BagValidator", VG)],
     "fault injection into bags with an independent validity oracle",
     "Random single corruptions and benign variations of random bags, in all forms.")
prop("P15", "Head and member bag validation reports exactly the broken profile rules",
     "A compliant aggregation passes head and member bag validation, and each way of breaking a rule of the "
     "profile (required tags, tag directory and tag files, order and form of the member list, form and truth of the lookup, "
     "deprecations, references, names) is reported with the severity of the rule: error for a MUST, warning or recommendation for the others.",
     ["inputs"], "all compliant head and member bags x single and combined rule breakages",
     "the tests break a few rules in one fixture",
     [VH, VM, VB], [("HeadBagValidator", VH), ("MemberBagValidator", VM)],
     "mutation of compliant bags against a table of the profile's rules",
     "Random bags broken by one rule or several; the set of severities must match the table. One known finding (member validation).")
prop("P16", "Paths in bag content never reach outside of the bag",
     "Whatever paths a bag's manifests, lookup, deleted list, fetch list, tag directory setting, archive entries or arguments "
     "contain, no operation reads or changes anything outside of the bags and the destination it was given (symbolic links and the "
     "names of member bags aside); such paths are refused or ignored.",
     ["inputs"], "all hostile paths x places where they can appear x operations",
     "the tests have no hostile paths besides one manifest case",
     [AX, AM, REST, AB], [("_canon_path", AX), ("multibag_tag_dir", AM), ("_purge", REST)],
     "file-system monitor with canary files around scratch bags",
     "All effects stay in scratch directories; canaries and audit events are judged.")
prop("P17", "A failing I/O call never passes silently",
     "When any single file-system call (write, open, read, link, mkdir, rename, unlink, ...) fails or is cut short "
     "while splitting, restoring, amending, converting or editing, the operation raises an error, or it completes with a fully correct result; "
     "the inputs stay as they were.",
     ["fault_sequences"], "all operations x every I/O call x error codes and short transfers",
     "the tests run on a healthy file system",
     [SPLIT, REST, AMEND, AM, AX], [("error propagation of replicate/save", AX)],
     "libc fault injection (LD_PRELOAD) at each call of an operation, with full result oracles",
     "Every call index of each sampled operation is failed once.", level="fault_enumeration")
prop("P18", "A crash at any point leaves inputs intact and the work can be redone",
     "When the process dies at any point of splitting, restoring, amending or converting, all input bags and all bags of earlier "
     "versions are intact and valid, output bags already delivered are complete, and the same operation into a fresh destination succeeds.",
     ["crash_points"], "all operations x every file-system event as crash point",
     "the tests never kill an operation",
     [SPLIT, REST, AMEND, AM], [("apply_iter", SPLIT), ("BagRestorer", REST), ("Amender", AMEND)],
     "crash-point enumeration: a forked child exits at the k-th event; the survivors are checked",
     "Every (quick: sampled) mutating event of each operation is a crash point.", level="fault_enumeration")
prop("P19", "Missing members are never ignored and fetching changes nothing",
     "Restoring fails with an error when a member bag can neither be found nor fetched; a fetcher is asked only for members that "
     "are not available, and restoring with fetched members gives the same result as with local ones, leaving no cached bags in the "
     "restored bag by default.",
     ["inputs", "fault_sequences", "configurations"], "all aggregations x subsets of missing members x fetchers and cache locations",
     "the tests use one fetcher on one aggregation",
     [REST], [("get_member_bag/find_member_bag/_fetch_member_bag", REST)],
     "call monitor on the fetcher plus result oracle",
     "Random subsets of members missing; fetchers that copy, serialize, fail or return nothing.")
prop("P20", "Version comparison is a total order consistent with its numeric fields",
     "Comparing versions (given as text, tuples or version objects) is a total order: reflexive, antisymmetric, transitive, "
     "total, with all six operators consistent, and numeric fields compared as numbers.",
     ["inputs"], "all pairs and triples of versions",
     "the tests compare a few pairs",
     [CONST], [("Version", CONST)],
     "law monitor on random triples against a reference order",
     "Random and boundary triples.")
prop("P21", "The fetch list of a restored bag combines those of the members",
     "The restored bag's fetch list has, for each path listed by any member and not deleted, the entry of the last member that lists it, "
     "and the payload manifests keep the entries of files yet to be fetched; without entries there is no fetch list.",
     ["inputs", "histories"], "all aggregations whose members list files to fetch",
     "the tests merge one fixed pair of fetch lists",
     [REST], [("restore_fetch", REST), ("_update_manifests", REST)],
     "reference-model monitor of merged fetch lists",
     "Random fetch lists over random aggregations.")
prop("P22", "Test data sets have exactly the requested sizes and counts",
     "Generated files have exactly the requested size, a uniform distribution of sizes has exactly the requested total and count with sizes "
     "that differ by at most one, and a generated data set that is reported as created has the files and bytes that are reported.",
     ["inputs", "configurations"], "all sizes, counts and data set configurations",
     "the tests use a few sizes",
     [MK], [("create_file / UniformSizeIterator / DatasetMaker", MK)],
     "size-accounting monitor over generated files",
     "Random and boundary sizes and counts.")
prop("P23", "Operations are independent of each other and of earlier history",
     "The result of an operation does not depend on what operations ran before in the same process or run at the same time on other "
     "bags, nor on the working directory or the way paths are written: reading, validating and splitting may run concurrently.",
     ["schedules", "histories"], "all sequences and interleavings of operations on separate bags",
     "the tests run one operation at a time in a fixed order",
     [AB, AX, AM, SPLIT, VB], [("class changes by as_extended/as_headbag", AX), ("module-level state", AB)],
     "interleaving stress and history permutation with result digests compared",
     "Threads with tiny switch intervals (alternations counted) for split/read/validate; sequential histories for the rest.")
prop("P24", "Splitting is incremental: a delivered bag is complete and never touched again",
     "While a plan is being applied, each bag is complete and valid when it is delivered, nothing is written for a later bag before it is "
     "asked for, and a delivered bag is never read or changed again, so that it can be moved, changed or removed at once.",
     ["histories", "inputs"], "all plans x actions on the delivered bags",
     "the tests consume the whole iteration before looking",
     [SPLIT], [("SplitPlan.apply_iter", SPLIT)],
     "online file-system monitor between deliveries",
     "Random actions (move, serialize, remove, alter) after each delivery.")
prop("P25", "Split bags carry the source's bag-info as documented",
     "Each output bag's bag-info has the source's elements, in full and with all repeated values, apart from its Multibag-* elements and those requested not to be passed on; elements that "
     "identify or describe the source bag are replaced and kept under a source-specific name; the sizes are those of the output bag, and the "
     "head bag keeps the source's own bag-info for the aggregation.",
     ["inputs", "configurations"], "all bag-info contents x elements not to be passed",
     "the tests check a few elements of one bag-info",
     [SPLIT], [("bag-info section of apply_iter", SPLIT)],
     "reference-model monitor of the transformed metadata",
     "Random bag-info contents with repeated, folded and hostile values.")
prop("P26", "Aggregations of the older profile versions are read and validated correctly",
     "Head bags that declare profile version 0.2 or 0.3 are read by the rules of that version (file names, separators), validate, and can be looked "
     "up, amended and restored.",
     ["inputs"], "all head bags of older profile versions",
     "the tests read one fixture",
     [AM, VH], [("iter_member_bags / iter_file_lookup", AM), ("_validate_group_*", VH)],
     "reference-model monitor over generated legacy head bags",
     "Random legacy heads.")
prop("P27", "Validation results are complete, consistent and never alter the bag",
     "A validation result's lists and counts of applied, passed and failed tests agree with each other and with its verdict for every selection of severities; "
     "the yes/no and raising forms of validation agree with the detailed one, results add up when collected together, and exported issues can be read back unchanged.",
     ["inputs", "programs"], "all result sets x selections x ways of asking",
     "the tests count a few issues",
     [VB, VG, VH, VM], [("ValidationResults / ValidationIssue / Validator", VB)],
     "consistency monitor on results of valid and broken bags",
     "Random issues and validations of random broken bags.")
prop("P28", "Restoring in place, or over existing content, gives the same bag as elsewhere",
     "Restoring an aggregation into its head bag gives the same content as restoring it to a new directory, and restoring into a partly restored bag "
     "completes it to the same content; the options for sizes and multibag tags change only those.",
     ["inputs", "histories", "configurations"], "all aggregations x destinations x options",
     "the tests restore in place once",
     [REST], [("BagRestorer", REST)],
     "differential monitor of ways to restore",
     "Random histories restored in several ways.")
prop("P29", "Restored files keep the time of modification of their source",
     "Every file of a restored bag has the modification time of the copy in the member bag that supplied it.",
     ["inputs", "histories"], "all aggregations x members' times (directories and archives)",
     "the tests do not look at times of more than one file",
     [REST, AX], [("_restore_from", REST), ("timesfor", AX)],
     "time-stamp monitor on restored bags",
     "Random times, including very old and future ones.")
prop("P30", "How a bag is split depends only on its content and the settings",
     "Splitting the same content with the same settings gives the same distribution of the files, independent of where the bag is, of the order in which its files were "
     "created and of earlier use of the splitter.",
     ["inputs", "configurations", "histories"], "all source directories x layouts on disk x splitters",
     "the tests split a bag once",
     [SPLIT, AX], [("Splitter.plan", SPLIT)],
     "differential monitor of plans over shuffled copies",
     "Random sources copied in different creation orders and places.")
prop("P31", "The sizes recorded in bag-info.txt are true",
     "Whenever an operation (conversion, amendment, split, restoration elsewhere or in place, an explicit update) records a Payload-Oxum "
     "it is exactly the number of bytes and of files in that bag's payload, and a Bag-Size that it records is the total size of the "
     "bag's files, to within rounding to four digits and the sizes of directories, in the right unit from bytes to terabytes, "
     "independent of what bag-info.txt said before. An output bag of a split does not carry the Bag-Size of its source.",
     ["inputs", "histories"], "all bags x operations x sizes up to terabytes x earlier values",
     "the tests compare the sizes of one or two fixture bags",
     [AX, AM, SPLIT, REST], [("calc_oxum/update_oxum/calc_bag_size/update_bag_size", AX), ("HeadBag.update_info", AM)],
     "size-accounting monitor: measured sizes of the files against what bag-info.txt says after each operation",
     "Random bags, histories and sparse payloads.")
prop("P32", "Requests that cannot be fulfilled are refused and change nothing",
     "An operation that is asked to work on something that does not exist, is not a bag, is not a head bag, is a damaged or unknown "
     "archive, has no list of members or a lookup that cannot be understood, to write where it cannot, to write over something that "
     "is there, or to amend a bag with itself raises an exception; nothing that existed before is changed by it (except for "
     "the new head bag of an amendment that fails on another bag), and the request can then be made rightly.",
     ["inputs", "configurations"], "all operations x wrong inputs and destinations",
     "the tests try a few wrong arguments and do not look at what is left behind",
     [SPLIT, AMEND, REST, AB, AX, AM], [("open_bag", AB), ("BagRestorer.__init__", REST), ("Amender.__init__", AMEND)],
     "refusal monitor: each wrong request has to raise, with a complete snapshot of the surroundings before and after",
     "Random surroundings with all kinds of things that are not bags.")


def main():
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("p"))
    props = [p for p in P if p["id"] in have]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in props:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"] or ["public API and resulting files"],
                             "hook_needed": None}}
            assert len(p["title"]) <= 80, p["title"]
            fd.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
           "notes": "Everything is decided by monitors on executions of the real code in /repo; see DESIGN.md. "
                    "No hooks were added to /repo (only fix: commits)."}
    for p in props:
        man["checks"].append({
            "property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
            "thorough_cmd": "bash run.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "runtime monitoring: " + p["technique"],
            "level": p["level"], "level_note": p["note"] + TRUST})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(man, fd, indent=1)
        fd.write("\n")

main()
