"""What each check runs. One entry per claimed property."""

MC = "model_checking"

CHECKS = {
    "C25": {
        "level": MC,
        "run": [{"fn": "hvcs.C25Pull", "reach": ["updated", "failed"]}, {"fn": "hvcs.C25Clone", "reach": ["cloned", "pulled", "updated", "failed"]}, {"fn": "hvcs.C25Names", "reach": ["updated"]},
                {"fn": "hvcs.C25Head", "reach": ["revision", "failed"]}, {"fn": "hvcs.C25Auto", "reach": ["listed", "failed"]}],
        "bounds": ["a remote with 4 revisions, 3 branches at arbitrary ones or absent and an arbitrary, dangling or detached HEAD; a working directory in any state (branch, revision, changed files, every remote-tracking branch) or none; all settings; any one command failing in one of five ways (it cannot start, no pipe to it can be made, it exits with a failure without or after doing its work, its output cannot be read to the end), for a clone any two in one of three ways; a clone and then a pull after an arbitrary change of the remote; names of revisions of up to 2 and of branches of up to 3 arbitrary characters, arbitrary white space around revisions; 2 files with arbitrary names of up to 2 bytes and arbitrary attribute values",
                   "any two commands failing; two pulls; 3 files; branch names of up to 4 characters"],
        "outside": "git itself, which is a model of the commands that the driver runs (checked by hand against git 2.43); translated messages of git",
        "assumptions": ["git behaves as the model in harness/hvcs/git.go: shallow clones, refspecs, non-fast-forward rejection, ref name resolution", "a detection failure is: git remote show fails, or names no branch"],
        "note": "Bounded: every state of the remote and the working directory and every failing command of the family.",
    },
    "C26": {
        "level": MC,
        "run": [{"fn": "hvcs.C26Tools", "reach": ["failed", "pulled", "cloned"]}, {"fn": "hvcs.C26Dir", "reach": ["pulled", "cloned"]}, {"fn": "hvcs.C26New", "reach": ["known", "unknown", "malformed", "valid"]}],
        "bounds": ["each driver under each of its names, a working directory that exists or not, two operations and a revision query, any one command of each failing in one of five ways (it cannot start, no pipe to it can be made, it exits with a failure without or after doing its work, its output cannot be read to the end), revisions of 2 arbitrary characters with arbitrary white space around them, arbitrary credentials; every name of up to 5 bytes; lists of malformed and of valid settings",
                   "names of up to 6 bytes"],
        "outside": "svn, hg and bzr themselves, which are models of the commands that the drivers run",
        "assumptions": ["the tools behave as the model in harness/hvcs/c26.go"],
        "note": "Bounded: every tool output, failure and directory state of the family.",
    },
    "C27": {
        "level": MC,
        "run": [{"fn": "hvcs.C27Watch", "reach": ["same", "different"]}, {"fn": "hvcs.C27Error", "reach": ["error", "fault"]}, {"fn": "hvcs.C27Fixed", "reach": ["fixed"]}, {"fn": "hvcs.C27Url", "reach": ["taken", "refused"]}, {"fn": "hvcs.C27Ignored"}, {"fn": "hvcs.C27Large", "reach": ["same", "different"]}],
        "bounds": ["all pairs of trees of up to 2 files (one fixed name, names of one arbitrary ASCII character, in a directory or not), contents of up to 1 arbitrary byte; reached directly or over links; in the same place after an edit, or in another place; one failing file-system operation at a symbolic position; one arbitrary byte at the start, middle or end of files of up to 1 MB; URLs with every prefix of up to 8 ASCII bytes",
                   "contents of up to 2 bytes, names of up to 2 characters"],
        "outside": "larger trees; file names with a newline, which are refused by design",
        "assumptions": ["SHA-1 is an ideal hash: different inputs have different hashes"],
        "note": "Bounded: every pair of trees of the family, decided with symbolic names and contents.",
    },
    "C22": {
        "level": MC,
        "run": [{"fn": "hweb.C22", "reach": ["refused", "served"]}, {"fn": "hweb.C22Dev", "reach": ["refused", "served"]}, {"fn": "hweb.C22More", "reach": ["refused", "served"]},
                {"fn": "hweb.C22Path", "reach": ["healthy", "refused", "served"]}, {"fn": "hweb.C22Fail", "reach": ["failed"]}, {"fn": "hweb.C22Broken", "reach": ["broken"]}, {"fn": "hmain.C22Main", "reach": ["refused", "served"]}],
        "bounds": ["(when a goroutine blocks, at most once another than the first runnable one continues) two clients with two requests each, two preemptions anywhere (one in development mode); three clients over all routes with one preemption; every path of up to 2 characters and health-check URI of up to 3; a failure to listen at any time with two preemptions; any missing page; the whole server with two repositories of which none, one or both cannot be indexed, and one client from the moment it listens",
                   "one preemption more, three requests, paths of up to 3 characters"],
        "outside": "more preemptions and clients; what net/http does before the handler is called (such as redirects)",
        "assumptions": ["goroutines are switched only at channel, lock and file operations and registrations of routes; data races between them are detected by vector clocks", "http.ServeMux chooses the longest registered pattern that matches"],
        "note": "Bounded: every schedule up to the preemption bound of requests against the transition.",
    },
    "C23": {
        "level": MC,
        "run": [{"fn": "hclient.C23", "native": True, "reach": ["printed"]}, {"fn": "hclient2.C23Blocks", "inpkg": "inpkg/c23", "reach": ["grouped"]}],
        "bounds": ["printed lines of up to 3 matches, context 0..2, gaps 1..7, line numbers 4..140, all symbolic; the blocks of up to 3 matches with context 0..2 (in-package harness, skipped if the unexported names change)",
                   "up to 4 matches, context 0..3, gaps 1..9, line numbers 4..160, all symbolic"],
        "outside": "longer match lists; the grouping decision is local to neighbouring matches",
        "assumptions": ["matches are listed as the server reports them: increasing, before-context not reaching the previous match, context cut short only at the ends of the file"],
        "note": "Bounded: every match list within the bounds, decided by the SMT solver over the interpreted SSA of client and ansi.",
    },
    "C24": {
        "level": MC,
        "run": [{"fn": "hclient.C24Hilite", "native": True}, {"fn": "hclient.C24Name", "native": True}, {"fn": "hclient.C24Empty"}],
        "bounds": ["patterns from a fixed list, lines of up to 4 arbitrary bytes, URLs of up to 5 arbitrary bytes",
                   "lines of up to 5 bytes, URLs of up to 6 bytes"],
        "outside": "longer lines and URLs, patterns outside the list",
        "assumptions": ["regexp of the standard library is executed from its own source"],
        "note": "Bounded: all lines and URLs within the bounds, for each pattern of the list.",
    },
    "C04": {
        "level": MC,
        "run": [{"fn": "hindex.C04", "native": True, "reach": ["searched"]}, {"fn": "hindex.C04Text", "native": True}],
        "bounds": ["10 patterns (anchors, classes, alternation, empty, word boundary), every ASCII file of up to 4 bytes, context 0..2; 3 text-anchored patterns, files of up to 4 bytes",
                   "every ASCII file of up to 6 bytes, context 0..3; text-anchored patterns up to 5 bytes"],
        "outside": "longer files (the loop carries only line number and rest of file from match to match), non-ASCII contents (C03 covers the matcher on them)",
        "assumptions": ["gzip stores and returns the bytes it is given (modelled as an identity with a frame)", "regexp of the standard library, executed per line, defines a match"],
        "note": "Bounded: every file content within the bounds, through Index.Search on a built index.",
    },
    "C05": {
        "level": MC,
        "run": [{"fn": "hindex.C05", "native": True, "reach": ["filtered"]}],
        "bounds": ["every ASCII file name of up to 2 characters, at the top or in a directory, beside a fixed file; 16 x 16 filter patterns (3 of them invalid)",
                   "names of up to 3 characters"],
        "outside": "longer names, patterns outside the list, non-ASCII names (C03 covers the matcher)",
        "assumptions": ["patterns are chosen so that matching a name line by line and as a whole is the same, as names hardly ever hold newlines"],
        "note": "Bounded: every name and pair of filters within the bounds, through Build and Search.",
    },
    "C06": {
        "level": MC,
        "run": [{"fn": "hindex.C06", "native": True, "reach": ["window"]}],
        "bounds": ["3 files with 0..2 matching lines each; every offset, limit and maximum (all non-negative 64-bit values, and -1 for the maximum); context 0 or 1",
                   "4 files with 0..3 matching lines; the same ranges"],
        "outside": "more files: the loop carries only three counters between files",
        "assumptions": [],
        "note": "Bounded: every offset, limit and maximum within the bounds against the definition of the window.",
    },
    "C07": {
        "level": MC,
        "run": [{"fn": "hindex.C07Short", "native": True, "reach": ["searched"]}, {"fn": "hindex.C07Long", "native": True, "reach": ["searched"]}, {"fn": "hindex.C07Fold", "native": True, "reach": ["searched"]}],
        "bounds": ["every one-character ASCII query against every ASCII text of up to 2 bytes; 18 metacharacter-rich or non-ASCII queries against every text of the query's length; 25 regular expressions with and without ignore-case against every character of up to two bytes",
                   "every query of up to two ASCII characters; texts one byte longer than the query; 17 expressions against every pair of characters"],
        "outside": "longer texts and queries; the prefilter is kept passing here (C01 covers it)",
        "assumptions": ["simple case folding is unicode.SimpleFold", "gzip stores and returns the bytes it is given"],
        "note": "Bounded: every query and text within the bounds.",
    },
    "C08": {
        "level": MC,
        "run": [{"fn": "hindex.C08", "native": True, "reach": ["built"]}, {"fn": "hindex.C08Names", "native": True, "reach": ["searchable"]}, {"fn": "hindex.C08Root", "native": True}, {"fn": "hindex.C08Fault", "reach": ["failed", "succeeded"]}],
        "bounds": ["one text file with any ASCII name of up to 3 characters, possibly in a directory with any one-character name; trees of two entries (one in a subdirectory), each text, binary, empty, link to a file or to a directory, 6 x 3 names, 4 directory names, dot-file exclusion and special names on or off; one failing file-system operation at any point of the build of a tree of 5 entries",
                   "6 x 6 names, the root also given through a symbolic link"],
        "outside": "larger trees (entries are handled one by one), device files, changes to the tree during the build, more than one failure, failing lseek on an open file",
        "assumptions": ["the file system behaves as modelled (harness/vmodel/fs.go); sampled paths are re-run on the real one"],
        "note": "Bounded: every tree of the family and every single failure point.",
    },
    "C09": {
        "level": MC,
        "run": [{"fn": "hindex.C09Short", "native": True, "reach": ["built"]}, {"fn": "hindex.C09Window", "native": True, "reach": ["built"]}, {"fn": "hindex.C09Limits", "native": True}],
        "bounds": ["every file of up to 4 bytes; every file of 2045 ASCII bytes followed by 3 to 5 arbitrary bytes; 5 files at the documented limits",
                   "every file of up to 5 bytes; 2044 ASCII bytes followed by 4 to 7 arbitrary bytes"],
        "outside": "files above 32 MB",
        "assumptions": ["the order of trigrams in the index does not matter for what is searchable (sortPost is skipped; C02 covers it)"],
        "note": "Bounded: every file of the two families.",
    },
    "C01": {
        "level": MC,
        "run": [{"fn": "hre.C01Hard", "native": True, "reach": ["checked"]}, {"fn": "hre.C01", "native": True, "reach": ["checked"]}, {"fn": "hre.C01Three", "native": True, "thorough": True}],
        "bounds": ["16000 patterns (40 building blocks in pairs, 10 templates) and 122 patterns that overflow or mix prefix, suffix and exact sets (also quoted as literals and with case ignored), each against every text of 8 arbitrary bytes",
                   "the same against every text of 10 and 11 bytes, and 21952 combinations of three building blocks against every text of 7 bytes"],
        "outside": "patterns outside the families; matches longer than the texts",
        "assumptions": ["the trigrams of an indexed file are those of its contents (C02)", "a match is defined by harness/reref over the standard library's parse of the pattern"],
        "note": "Bounded: for each pattern one solver query over every text decides 'match implies candidate'.",
    },
    "C03": {
        "level": MC,
        "run": [{"fn": "hre.C03", "native": True, "reach": ["matched"]}, {"fn": "hre.C03Chars", "native": True}, {"fn": "hre.C03Lines", "native": True}, {"fn": "hre.C03Reuse", "native": True}],
        "bounds": ["150 patterns (anchors, classes, case folding, word boundaries, repetition, invalid ones) against every text of up to 3 bytes (2 for 12 of them), whole, as a string, and as a part of a text; 12 patterns on long characters against every 4 bytes; 16 multi-line patterns against every text of 5 bytes over {a, b, newline, space}; 15 patterns matched twice",
                   "texts of up to 4 bytes; 7 bytes over the small alphabet"],
        "outside": "longer texts (the matcher is a finite automaton whose states these texts reach, for the short patterns used), patterns outside the list, texts with encoded surrogates (byte 0xED)",
        "assumptions": ["bytes that are not part of well-formed UTF-8 are matched by nothing, as in RE2", "word boundaries are about ASCII word bytes", "the standard library's parser defines the syntax tree of a pattern"],
        "note": "Bounded: every text within the bounds; the automaton runs symbolically and every outcome is compared with the definition by the solver.",
    },
    "C02": {
        "level": MC,
        "run": [{"fn": "htri.C02Query", "native": True, "reach": ["queried"]}, {"fn": "htri.C02Deep", "native": True, "reach": ["nested"]}, {"fn": "htri.C02List", "native": True, "reach": ["listed"]}, {"fn": "htri.C02Many", "native": True}, {"fn": "htri.C02Set", "native": True},
                {"fn": "htri2.C02Varint", "inpkg": "inpkg/c02", "reach": ["read"]}, {"fn": "htri2.C02Buf", "inpkg": "inpkg/c02"}, {"fn": "htri2.C02Heap", "inpkg": "inpkg/c02", "reach": ["delivered"]},
                {"fn": "htri2.C02Sort", "inpkg": "inpkg/c02"}, {"fn": "htri2.C02Flush", "inpkg": "inpkg/c02", "reach": ["flushed"]}],
        "bounds": ["3 (lists: 6) sets of up to 6 files, queries of depth 2 with up to 4 arbitrary trigrams; queries nested 2 deep (AND and OR in every order, with and without trigrams and second parts) over 64 files with every combination of 6 words, one trigram of each being arbitrary; 300 files with two arbitrary members of 12 boundary positions; every pair of 32-bit numbers encoded; 4 buffered writes with arbitrary data and an 8-byte buffer; heap of 3 chunks with up to 2 arbitrary entries each; radix sort of 3 entries over 8 boundary trigrams; 3 files with a memory buffer of 1, 2 or 4 entries; 4 operations on a sparse set",
                   "6 sets of files; 4 chunks; 4 entries sorted; 2 to 4 files with buffers of 1 to 5 entries; 6 set operations"],
        "outside": "indexes above 4 GB, larger sets of files",
        "assumptions": ["mmap shows the bytes of the file", "the unsafe cast between entries and bytes is a little-endian copy"],
        "note": "Bounded: every trigram, number and heap content within the bounds. The in-package harness runs only where the names it uses still exist; the black-box harness always runs.",
    },
    "C28": {
        "level": MC,
        "run": [{"fn": "htri.C28", "native": True, "reach": ["merged"]}, {"fn": "htri.C28Ranges", "native": True, "reach": ["merged"]}],
        "bounds": ["4 of 7 names, every split over the two indexes, 10 path sets of the newer index; 4 files that stay, with up to 3 paths of the newer index between them and either of 2 contents; arbitrary trigram looked up", "5 of 7 names; 5 files with 4 paths between them"],
        "outside": "larger indexes",
        "assumptions": ["file names are added in sorted order, as the indexers do", "a file lies in a path if its name starts with it"],
        "note": "Bounded: every trigram for every pair of indexes of the family.",
    },
    "C29": {
        "level": MC,
        "run": [{"fn": "hclient.C29Ask", "native": True, "reach": ["asked"]}, {"fn": "hclient.C29Answer", "native": True, "reach": ["answered", "failed"]}, {"fn": "hmain.C29Main", "reach": ["shown", "failed", "usage"]}, {"fn": "hmain.C29Both", "reach": ["shown"]}],
        "bounds": ["pattern, repositories and file filter of any one byte or none, 5 numbers of lines of context, all flags, headers with and without a host in 3 spellings; every combination of 7 kinds of answers to the two requests, results with an arbitrary character; the whole command with all combinations of its options, 16 pairs of configuration files, 5 patterns, none or two arguments and 4 kinds of answers; the command against the whole server with 3 patterns, 3 sizes of context and an arbitrary character in the file",
                   "two bytes"],
        "outside": "longer strings; the transport itself (net/http); the presentation with -like-grep, which does not exist yet; a host in a configuration file takes precedence over -host",
        "assumptions": ["encoding/json behaves as modelled (harness/vmodel/json.go); sampled paths are re-run on the real one", "(*http.Client).Do is a stand-in that hands the request to the harness"],
        "note": "Bounded: every request and every pair of answers of the families, through the exported functions of the client and through the command itself.",
    },
    "C10": {
        "level": MC,
        "run": [{"fn": "hsearch.C10Crash", "reach": ["crashed", "restarted", "leftover"]}, {"fn": "hsearch.C10Fault", "reach": ["failed", "restarted"]}, {"fn": "hsearch.C10Both", "reach": ["both", "restarted"]}, {"fn": "hsearch.C10Manifest", "reach": ["read back"]}],
        "bounds": ["a repository of 3 files, first start, update to a second revision and second start; the process stops before any one file-system operation (symbolic position) of the build or the removal, or any one operation fails, or one operation of an update fails and the process stops at another; manifests with every URL and revision of up to 2 characters",
                   "the same with two failures, longer strings"],
        "outside": "larger repositories; loss of data that was written but not yet synced (a crash of the machine, not of the process)",
        "assumptions": ["the file system behaves as modelled (harness/vmodel/fs.go): completed operations are durable, an interrupted one is either done or not", "gob decodes a value it has encoded to the same value and rejects an incomplete one"],
        "note": "Bounded: every crash point and every single failure point of the modelled builds, through searcher.New and MakeAll.",
    },
    "C11": {
        "level": MC,
        "run": [{"fn": "hsearch.C11", "reach": ["started", "reused", "fresh"]}, {"fn": "hsearch.C11Sched", "reach": ["started"]}, {"fn": "hsearch.C11Race", "reach": ["started"]}, {"fn": "hsearch.C11Three", "thorough": True}],
        "bounds": ["1 or 2 repositories (same or different URLs, current revisions 0 or 1, failing or not) and up to 2 leftover directories (URL, revision, damaged or without manifest, foreign names), one worker or two; one preemption anywhere (the update that follows the startup: without preemption)",
                   "3 repositories, 2 preemptions"],
        "outside": "more repositories; repositories that share a URL but not a ref (they share one working directory by design)",
        "assumptions": ["the version control driver is a stand-in that reports an arbitrary revision or fails", "goroutines are switched only at channel, lock and listed file operations"],
        "note": "Bounded: every start configuration of the family with every schedule up to the preemption bound; data races are detected by vector clocks.",
    },
    "C12": {
        "level": MC,
        "run": [{"fn": "hsearch.C12", "reach": ["failed", "caught up"]}, {"fn": "hsearch.C12Poll", "reach": ["polled"]}],
        "bounds": ["3 updates, of which each finds a new revision or not, with one failing version control operation or one failing file-system operation at a symbolic position; pushed or polled",
                   "also two failures"],
        "outside": "more failures in a row, failing lseek on an open file",
        "assumptions": ["the version control driver is a stand-in that reports an arbitrary revision or fails", "a failing file operation has no effect, except that a write may be short"],
        "note": "Bounded: every single failure point of every update sequence of the family.",
    },
    "C13": {
        "level": MC,
        "run": [{"fn": "hsearch.C13", "reach": ["replaced"]}, {"fn": "hsearch.C13Two", "reach": ["replaced"]}, {"fn": "hsearch.C13Again", "reach": ["replaced"]}],
        "bounds": ["(when a goroutine blocks, at most two times another than the first runnable one continues) one update against one search and one reader of the excluded files with two preemptions anywhere; two searches with one preemption; two updates with one preemption",
                   "two preemptions each"],
        "outside": "more preemptions, more concurrent searches",
        "assumptions": ["goroutines are switched only at channel and lock operations and the listed file operations; data races between them are detected by vector clocks"],
        "note": "Bounded: every schedule up to the preemption bound (positions are symbolic), on the searcher's own code.",
    },
    "C14": {
        "level": MC,
        "run": [{"fn": "hsearch.C14", "reach": ["pulled"]}, {"fn": "hsearch.C14All", "reach": ["pulled"]}, {"fn": "hsearch.C14Burst", "reach": ["pulled"]}, {"fn": "hsearch.C14Busy"}, {"fn": "hsearch.C14Off"}],
        "bounds": ["up to two requesters with up to two requests each, before and after polling begins, with two preemptions anywhere; requests during an operation that never ends",
                   "more preemptions and requests"],
        "outside": "more preemptions and requests",
        "assumptions": ["goroutines are switched only at channel and lock operations and the listed file operations"],
        "note": "Bounded: every schedule up to the preemption bound.",
    },
    "C15": {
        "level": MC,
        "run": [{"fn": "hsearch.C15", "reach": ["stopped"]}, {"fn": "hsearch.C15Twice", "reach": ["stopped"]}, {"fn": "hsearch.C15Two", "reach": ["stopped"]}, {"fn": "hmain.C15Main", "reach": ["exited", "later"]}, {"fn": "hsearch.C15Deep", "thorough": True}],
        "bounds": ["(when a goroutine blocks, at most once another than the first runnable one continues) one or two searchers with polling and pushes on or off, an update and one or two shutdown requests, two preemptions anywhere, timers firing at any time; the whole server with one or two repositories and SIGTERM at any moment of its startup or during an update, one preemption anywhere",
                   "three preemptions"],
        "outside": "more preemptions",
        "assumptions": ["goroutines are switched only at channel and lock operations and the listed file operations", "a version control operation ends eventually"],
        "note": "Bounded: every schedule up to the preemption bound; a wait that never returns shows as a deadlock.",
    },
    "C16": {
        "level": MC,
        "run": [{"fn": "hsearch.C16Start", "reach": ["done", "parallel"]}, {"fn": "hsearch.C16Update", "reach": ["done", "failed"]}, {"fn": "hsearch.C16More", "reach": ["done", "parallel"]}],
        "bounds": ["(when a goroutine blocks, at most two times another than the first runnable one continues) start of three repositories with limit 1 or 2; updates of two repositories with limit 1 and a failure of either; start and two rounds of updates of three repositories with limit 1 or 2 where every version control operation is held until all that may start have started, with failures; one preemption anywhere (none in the last)",
                   "two preemptions and two rounds of updates"],
        "outside": "more repositories, higher limits",
        "assumptions": ["the version control driver is a stand-in whose operations can be overtaken at their start and end", "goroutines are switched only at channel and lock operations, version control operations and the listed file operations"],
        "note": "Bounded: every schedule up to the preemption bound.",
    },
    "C17": {
        "level": MC,
        "run": [{"fn": "hweb.C17Ctx", "native": True, "reach": ["found"]}, {"fn": "hweb.C17Limit", "native": True, "reach": ["found"]}, {"fn": "hweb.C17Range", "native": True, "reach": ["found"]},
                {"fn": "hweb.C17Flags", "native": True, "reach": ["found", "on"]}, {"fn": "hweb.C17Rest", "native": True, "reach": ["found"]}, {"fn": "hweb.C17Bytes", "native": True, "reach": ["found"]}, {"fn": "hweb.C17Query", "native": True, "reach": ["answered"]}],
        "bounds": ["each numeric parameter: absent, every string of up to 2 (range: 3) digits and signs, every one-byte string, and 10 to 15 extreme ones (64-bit limits, hexadecimal, signs); each flag: every ASCII string of up to 5 characters; 9216 combinations of all parameters; every 2 bytes in the answer; every one-byte query and file pattern",
                   "one digit more in each numeric parameter, 3 bytes in the answer, two-byte queries"],
        "outside": "longer parameter values; parsing of the request itself (net/http)",
        "assumptions": ["the response is compared with what the searcher answers for the options that the request states (C04 to C07 cover the search)", "FormValue returns the parameter"],
        "note": "Bounded: every parameter value within the bounds, from the request to the decoded response.",
    },
    "C18": {
        "level": MC,
        "run": [{"fn": "hweb.C18", "native": True, "reach": ["results", "error"]}, {"fn": "hweb.C18Names", "native": True, "reach": ["results"]}, {"fn": "hweb.C18Sched", "reach": ["results", "error"]}],
        "bounds": ["three repositories, each with matches, without, or failing; 11 lists of names (duplicates, all) with 5 kinds of noise; every list of up to 3 characters over {a, b, comma, space, star, x}; one request under every schedule of its workers with one preemption (and at most one other choice than the first runnable goroutine when one blocks)",
                   "lists of up to 4 characters; two requests at once, two preemptions"],
        "outside": "more repositories, updates during the search (C13)",
        "assumptions": ["a search fails when the stored contents of a file cannot be read", "goroutines are switched only at channel, lock and file operations"],
        "note": "Bounded: every list of names, combination of outcomes and schedule within the bounds.",
    },
    "C19": {
        "level": MC,
        "run": [{"fn": "hweb.C19Update", "reach": ["updated", "forbidden"]}, {"fn": "hweb.C19Hook", "reach": ["updated", "forbidden", "undecodable", "unknown"]}, {"fn": "hweb.C19Read", "reach": ["excludes", "no repository", "repos", "search"]}],
        "bounds": ["three repositories with push updates on or off; 8 methods; 14 lists of repositories; webhook bodies: 8 names in 3 forms, every name of up to 2 printable characters, every body of up to 2 bytes, 20 malformed or odd ones; excluded files of every repository name of up to 2 bytes; 64 combinations of search parameters",
                   "one character or byte more"],
        "outside": "longer bodies and names",
        "assumptions": ["encoding/json behaves as modelled (harness/vmodel/json.go)", "the version control driver is a stand-in that counts pulls"],
        "note": "Bounded: every request of the families, through the handlers registered by api.Setup.",
    },
    "C20": {
        "level": MC,
        "run": [{"fn": "hweb.C20Text", "native": True, "reach": ["serialised"]}, {"fn": "hweb.C20Serve", "native": True, "reach": ["served"]}],
        "bounds": ["a secret at any of four places (own settings with and without global ones to merge, global settings with and without a repository to merge into), each of any of five shapes with arbitrary strings of up to 2 characters, compared with an empty one (so that no two can be told apart); every serialisation of the configuration and its parts by pointer and by value, before and after merging; 22 requests over all routes, in production and development mode",
                   "the same"],
        "outside": "longer secrets; secrets in the URL of a repository, which is not a driver configuration; what is written to the log",
        "assumptions": ["encoding/json behaves as modelled (harness/vmodel/json.go)", "a page template only inserts values, whose escaping depends on nothing but the value (html/template, text/template); large assets are stand-ins", "the version control driver is a stand-in: what it does with its configuration is outside (C25, C26)"],
        "note": "Bounded non-interference: two runs of the real code whose configurations differ only in the secret give equal outputs for all values of both secrets.",
    },
    "C21": {
        "level": MC,
        "run": [{"fn": "hweb.C21Global", "native": True, "reach": ["loaded"]}, {"fn": "hweb.C21Repo", "native": True, "reach": ["loaded"]}, {"fn": "hweb.C21Merge", "native": True, "reach": ["merged"]}, {"fn": "hweb.C21Values", "native": True, "reach": ["merged"]},
                {"fn": "hweb.C21Odd", "native": True, "reach": ["refused", "accepted"]}, {"fn": "hweb.C21Bytes", "native": True, "reach": ["refused"]}, {"fn": "hweb.C21Missing", "native": True}],
        "bounds": ["every combination of present and absent settings with arbitrary short values (numbers of 1 or 2 digits, strings of 1 or 2 characters); three repositories with up to two own and two global driver settings each and every order of iteration over them; 10 kinds of values; negative and large numbers; 22 places x 25 odd values with what has to be accepted or refused; any 2 bytes in 4 places",
                   "any 3 bytes in 4 places"],
        "outside": "longer values, numbers beyond 2^53 in driver settings, the dbpath that is used when none is given (the documentation and the code differ, both are absolute)",
        "assumptions": ["encoding/json behaves as modelled (harness/vmodel/json.go); sampled paths are re-run on the real one"],
        "note": "Bounded: every configuration of the families, from the file to the loaded settings.",
    },
}
