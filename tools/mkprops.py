#!/usr/bin/env python3
# Source of properties.jsonl (kept as a program so that the JSON stays valid).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=""):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1]} for s in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook or "none"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Trigram prefilter never drops a file that contains a match",
 "For every accepted pattern (with or without ignore-case or literal mode) and every file content, if some line of an indexed file matches the pattern then the trigram query derived from the pattern is satisfied by the trigrams of that file, so the file is among the candidates that are searched. The prefilter may keep files that do not match, but it never excludes one that does.",
 ["inputs"],"all patterns of the supported RE2 syntax x all file contents",
 "The existing tests compare query strings for ~60 fixed patterns; they never relate a query to the contents a pattern matches, so a too-strong query for one operator combination goes unseen.",
 ["codesearch/index/regexp.go","codesearch/index/read.go","index/index.go"],
 [("regexp analysis to trigram query","codesearch/index/regexp.go:RegexpQuery, analyze, concat, alternate, simplify"),("candidate selection","index/index.go:Search, codesearch/index/read.go:PostingQuery")],
 observe=["files returned by Search vs. files whose lines match"])
p("C02","Trigram index on disk answers every query exactly",
 "For every sequence of text files added to an index writer, the index read back from disk maps each file id to the name it was added under and, for every trigram, lists exactly the files whose content contains that trigram, in increasing id order without duplicates. Any AND/OR combination of trigrams evaluates to exactly the boolean combination of those sets, whatever the number of files, the order of trigrams, the number of intermediate flushes or the sizes of the encoded numbers.",
 ["inputs","histories"],"all file sets, contents, names, trigram queries, flush points and integer widths",
 "The tests write two tiny fixed indexes and query a handful of trigrams; multi-flush merges, wide deltas, set-algebra corner cases and restricted sub-queries are never reached.",
 ["codesearch/index/write.go","codesearch/index/read.go","codesearch/sparse/set.go"],
 [("posting list writer","codesearch/index/write.go:Add, flushPost, mergePost, sortPost, postHeap, writeUvarint"),("posting list reader","codesearch/index/read.go:Open, findList, postReader, postingQuery, mergeOr"),("sparse set","codesearch/sparse/set.go:Set")],
 observe=["Index.PostingQuery/PostingList/Name results after Flush+Open"])
p("C03","The line matcher agrees with RE2 line semantics",
 "For every supported pattern and every byte text, the matcher reports a match exactly when some line of the text contains a match of the pattern under RE2 multi-line semantics (UTF-8 classes, case folding, word boundaries and line/text anchors included), never letting a match span a newline. The reported position is the end of the first matching line, and results do not depend on texts that were matched earlier with the same compiled pattern.",
 ["inputs","histories"],"all patterns of the supported syntax x all texts x all earlier uses of the same compiled pattern",
 "The tests check a table of about 60 pattern/text pairs; the compiled byte automaton has unboundedly many pattern x text combinations and caches states between uses.",
 ["codesearch/regexp/match.go","codesearch/regexp/utf.go","codesearch/regexp/regexp.go","codesearch/regexp/copy.go"],
 [("DFA matcher","codesearch/regexp/match.go:matcher"),("rune to byte program","codesearch/regexp/utf.go:toByteProg, oneByteRange, addRange")],
 state=[("dstate cache","lazily built DFA states shared by all matches of one compiled pattern")],
 observe=["Regexp.Match / MatchString results"])
p("C04","Search reports each matching line exactly once, with true context",
 "For every file content, pattern and context size N, the matches reported for a file are exactly its matching lines in order, each once, with the 1-based line number and the exact text of that line. The lines reported after a match are the up to N lines that directly follow it in the file, and those reported before it are the up to N lines that directly precede it, except that they never reach back past the previous match.",
 ["inputs"],"all file contents (including empty lines, missing final newline, blank context lines), patterns and context sizes",
 "The grep tests use one fixed 7-line text and a few fixed patterns; adjacent matches, empty lines, matches on the last unterminated line and empty files are not covered.",
 ["index/grep.go","index/index.go","codesearch/regexp/match.go"],
 [("context grep","index/grep.go:grep2, lastNLines, firstNLines, countLines, fillFrom"),("match collection","index/index.go:Search")],
 observe=["SearchResponse.Matches[].Matches (Line, LineNumber, Before, After)"])
p("C05","File-name filters select exactly the intended files",
 "For every file-filter and exclude-filter pattern, a search considers exactly the indexed files whose repository-relative path matches the file filter (if any) and does not match the exclude filter (if any). An invalid filter is reported as an error and no result is returned.",
 ["inputs"],"all path names, include/exclude pattern pairs",
 "No existing test searches with a file or exclude filter.",
 ["index/index.go","codesearch/regexp/match.go"],
 [("filters","index/index.go:Search")],observe=["files present in SearchResponse.Matches"])
p("C06","Paging and result limits return exactly the requested window",
 "With offset O and limit L (0 = unlimited), a search returns exactly the matching files number O+1 .. O+L in index order, and FilesWithMatch counts every matching file that was examined, whether or not it is returned. With a maximum of R results (0 = unlimited) the number of matching lines returned never exceeds R, and the lines returned are the first R matching lines of the window, complete and in order.",
 ["inputs"],"all combinations of offset, limit, maximum results and number of matching files and lines",
 "Existing tests run one search with no offset, limit or maximum; the interplay of the three counters is untested.",
 ["index/index.go"],[("result window","index/index.go:Search")],observe=["SearchResponse.Matches, FilesWithMatch"])
p("C07","Literal and ignore-case searches mean what they say",
 "A literal search for any query text matches exactly the lines that contain that text, byte for byte, whatever metacharacters it contains. With ignore-case the same holds up to Unicode simple case folding, so that ignoring case never loses a line the exact literal search finds. A regular-expression search that ignores case matches exactly the lines that the pattern matches under RE2's case-insensitive flag.",
 ["inputs"],"all query texts and file contents",
 "No existing test performs a literal or ignore-case search through the index.",
 ["index/index.go","codesearch/regexp/regexp.go"],[("pattern construction","index/index.go:GetRegexpPattern, Search; codesearch/regexp/regexp.go:QuoteMeta")],
 observe=["lines returned by Search with LiteralSearch / IgnoreCase"])
p("C08","An index build accounts for every file of the tree",
 "After a successful build, every regular file in the source tree is either searchable with exactly its original contents or listed as excluded with a reason, never both and never neither; dot files (and everything below dot directories) are left out when dot-file exclusion is on, and VCS-special names are ignored entirely. A file that cannot be read or copied makes the build fail instead of disappearing silently.",
 ["inputs","fault_sequences"],"all directory trees (files, dirs, dot names, special names, non-regular entries) and all single I/O faults during the build",
 "The tests index one fixed directory once; symlinks, dot entries, special names, and every I/O error path are untested.",
 ["index/index.go","codesearch/index/write.go"],
 [("tree walk","index/index.go:indexAllFiles, addFileToIndex, addDirToIndex"),("index writer","codesearch/index/write.go:Add")],
 state=[("raw/ copy","compressed copy of each indexed file"),("excluded_files.json","list of excluded files with reasons")],
 observe=["Search results and excluded_files.json of the built index"])
p("C09","Text detection neither loses UTF-8 text nor indexes binary data",
 "Every file whose bytes are valid UTF-8 is treated as text, wherever multi-byte characters fall relative to the peek window, unless it exceeds one of the documented size or line-length limits. A file whose peeked prefix contains an invalid UTF-8 sequence (a last character that the end of the window cuts short is not one by itself) is excluded with a reason and never searchable.",
 ["inputs"],"all file contents around the peek-window boundary",
 "The only related test checks a small fixed set of strings; the boundary between peek window and continuation bytes is quantified over every byte combination.",
 ["index/index.go","codesearch/index/write.go"],
 [("peek","index/index.go:isTextFile, validUTF8IgnoringPartialTrailingRune"),("pair check while indexing","codesearch/index/write.go:validUTF8, Add")],
 observe=["whether Build lists the file as searchable or excluded"])
p("C10","An interrupted or failed build is never mistaken for a good index",
 "If the process stops, or an I/O operation fails, at any point of an index build, or of the removal of an index that was replaced, then on the next start the leftover directory is either a complete index of the revision it claims, or is not reused and is removed. An index's manifest (URL, revision, auto-generated file list) read back is exactly what was written.",
 ["crash_points","fault_sequences"],"every operation of a build or removal at which a crash or an I/O error can happen",
 "No test injects a crash or a fault, and none restarts from a half-built directory.",
 ["index/index.go","searcher/searcher.go","codesearch/index/write.go"],
 [("manifest written last","index/index.go:Build, writeManifest, Read"),("recovery","searcher/searcher.go:findExistingRefs, MakeAll, removeUnclaimed")],
 state=[("metadata.gob","manifest whose presence declares the index complete")],
 observe=["directories present and search results after restart"])
p("C11","Startup reuses exactly the matching indexes and deletes only stale ones",
 "At startup an existing index is reused for a repository if and only if its recorded URL and revision equal the repository's URL and current revision; no index directory serves two repositories. Every index directory that no repository claimed is removed, no claimed or freshly built one is, and each configured repository ends up either searchable or with its own error without affecting the others.",
 ["histories","configurations","schedules"],"all sets of leftover index directories x configured repositories x VCS outcomes x startup interleavings",
 "There is no test of the searcher package at all.",
 ["searcher/searcher.go","index/index.go"],
 [("claiming and garbage collection","searcher/searcher.go:foundRefs, findExistingRefs, removeUnclaimed, newSearcher, MakeAll")],
 state=[("foundRefs.claimed","index directories taken over by a searcher")],
 observe=["searchers/errors returned by MakeAll, directories left in dbpath"])
p("C12","A failed update leaves the current index serving and is retried",
 "Whatever step of an update fails (VCS pull, index build, opening, removal of the old index), searches keep working and keep answering from one complete index, and the server never crashes because of it. An update whose build failed is attempted again on the next trigger, and a successful update makes searches answer from the new revision.",
 ["fault_sequences","histories"],"all sequences of update attempts with arbitrary success or failure of each step",
 "There is no test of the searcher package at all; no failure of pull, build or removal is ever injected.",
 ["searcher/searcher.go","index/index.go"],
 [("update cycle","searcher/searcher.go:updateAndReindex, swapIndexes, newSearcher goroutine, buildAndOpenIndex"),("index teardown","index/index.go:Destroy, Close")],
 observe=["Search results and reported Revision after each attempt"])
p("C13","Searches stay consistent while an index is being replaced",
 "For every interleaving of searches, exclusion-list reads and an index replacement, each search answers entirely from one index (old or new, with matching revision) that stays open and on disk until that search is done, and the old index directory is removed after the replacement. No interleaving crashes, deadlocks or has a data race.",
 ["schedules"],"all interleavings of concurrent searches, excluded-file requests and index swaps",
 "Tests are sequential; the window between swapping, closing and deleting an index is never exercised.",
 ["searcher/searcher.go","index/index.go","codesearch/index/mmap_linux.go"],
 [("swap under write lock","searcher/searcher.go:swapIndexes, Search, GetExcludedFiles"),("per-index lock","index/index.go:Search, Destroy, Close")],
 state=[("Searcher.idx","currently served index")],
 observe=["search responses, memory-map validity, directories on disk"])
p("C14","Push updates never block and are never lost",
 "An update request on a repository with push updates enabled returns success without blocking, and at least one complete VCS pull (and reindex if the revision changed) starts after the request was accepted. When push updates are disabled the request is refused and has no effect.",
 ["schedules","histories"],"all interleavings of update requests with startup, polling and running updates",
 "There is no test of the searcher package; request coalescing through a one-slot queue only shows its bugs under particular schedules.",
 ["searcher/searcher.go","api/api.go"],
 [("one-slot update queue","searcher/searcher.go:Update, begin, waitForUpdate, newSearcher goroutine")],
 observe=["number of pulls started after Update() returned true"])
p("C15","Shutdown always completes and never interrupts an index build",
 "After a shutdown request, every searcher terminates: waiting for it returns for every interleaving with polling, updates and startup, also when updates are disabled or shutdown is requested repeatedly. A running index update is completed first and no new one is started after the request has been processed.",
 ["schedules"],"all interleavings of shutdown requests with the update loop",
 "There is no test of the searcher package.",
 ["searcher/searcher.go","cmds/houndd/main.go"],
 [("shutdown protocol","searcher/searcher.go:Stop, Wait, waitForUpdate, completeShutdown")],
 state=[("shutdownCh/shutdownRequested","pending shutdown request")],
 observe=["Wait() returning; index builds started after Stop()"])
p("C16","Concurrent indexing never exceeds the configured limit",
 "At no time do more than the configured number of repositories clone, pull or index concurrently, both during startup and for later updates, and every permit is given back on success and on every failure, so that indexing never stalls.",
 ["schedules","configurations","fault_sequences"],"all interleavings, limits, repository counts and failures",
 "There is no test of the searcher package.",
 ["searcher/searcher.go"],[("limiter","searcher/searcher.go:limiter, newSearcherConcurrent, updateAndReindex")],
 observe=["number of VCS operations in flight"])
p("C17","Search request parameters are parsed and clamped safely",
 "For every search request, absent or malformed parameters fall back to their defaults, context is at most 20 lines, the result limit lies between -1 and 100000, offset and limit are never negative, and boolean flags are true exactly for true, 1 or fosho in any case. The options used for the search are exactly those the request states, and the response is always well-formed JSON carrying either results or an error.",
 ["inputs"],"all values of every query parameter",
 "The only test checks two parses of the limit parameter.",
 ["api/api.go"],[("parameter parsing","api/api.go:parseAsBool, parseAsUintValue, parseAsIntValue, parseRangeValue, Setup")],
 observe=["results of /api/v1/search for arbitrary parameters"])
p("C18","Multi-repository search returns every repository's results or an error",
 "A search names any set of repositories (or * for all): the response contains, for exactly the named known repositories that have matches, that repository's own results, unknown names are ignored, and files-opened statistics are the sum over the repositories that are returned. If the search of any named repository fails the whole response is an error, and no combination of failures and successes makes a request hang or leak a worker.",
 ["inputs","schedules"],"all repository lists, per-repository outcomes and completion orders",
 "No test runs a search over several repositories.",
 ["api/api.go","searcher/searcher.go"],[("fan-out and aggregation","api/api.go:searchAll, parseAsRepoList, Setup")],
 observe=["JSON body of /api/v1/search"])
p("C19","Every API endpoint answers every request with the right status",
 "For every request, each API endpoint sends exactly one response and never panics: updates and webhooks accept only POST (405 otherwise), an unknown webhook repository gives 404, a repository without push updates gives 403, an undecodable webhook body gives 400, and success triggers an update of exactly the named repositories. The excluded-files endpoint answers for known and unknown repositories alike without crashing.",
 ["inputs"],"all methods, parameters, bodies and repository configurations",
 "No test exercises an HTTP endpoint.",
 ["api/api.go","searcher/searcher.go"],[("handlers","api/api.go:Setup")],observe=["status, body and effects of each request"])
p("C20","VCS credentials never leave the server",
 "No response of the server (repository list, search results, embedded page configuration) and no serialisation of the configuration depends on the contents of any repository-level or global VCS configuration: two configurations that differ only in these secrets are indistinguishable to every client, before and after the secrets are merged.",
 ["inputs","configurations"],"all VCS configuration contents and repository configurations",
 "No test serialises a configuration that contains VCS settings.",
 ["config/config.go","api/api.go","ui/ui.go","cmds/houndd/main.go"],[("opaque marshalling","config/config.go:SecretMessage.MarshalJSON, ToJsonString")],
 observe=["bytes of /api/v1/repos, search responses and the embedded page configuration"])
p("C21","Configuration defaults and VCS-config merging follow the documentation",
 "Loading a configuration fills every omitted setting with its default (title Hound, two indexers, /healthz, result limit 5000; per repository git, polling every 30 s, poll updates on, push updates off, dot files included, the blob URL pattern and line anchor), keeps every setting that is present, and resolves a relative database path against the directory of the configuration file. Global VCS settings are merged into a repository's settings for the matching VCS only, a repository's own value always wins, repositories do not influence each other, and malformed input is reported as an error, never as a crash.",
 ["inputs","configurations"],"all configurations: presence/absence and values of every setting, global/repository VCS settings",
 "The tests load two fixed configuration files.",
 ["config/config.go"],[("defaults","config/config.go:initRepo, initConfig, LoadFromFile"),("merge","config/config.go:mergeVCSConfigs")],
 observe=["fields of the loaded configuration"])
p("C22","The server says not-ready until indexes exist, healthy throughout",
 "Every request for the health-check path is answered 200 at any time; every other request is answered 503 before searching is enabled and is served by the application afterwards, with no data race or deadlock between requests and the transition, and search results are never served from a partially set-up server.",
 ["schedules","inputs"],"all request paths and all interleavings of requests with the transition",
 "There is no test of the web package.",
 ["web/web.go"],[("handover","web/web.go:ServeHTTP, serveWith, ServeWithIndex")],observe=["status of each response relative to the transition"])
p("C23","Client output merges overlapping matches without loss or duplication",
 "For every list of matches of a file as the server reports them, the command-line client groups them into blocks such that every matched and context line appears exactly once, under its own line number, in increasing order, with exactly the matched lines marked, and lines are in one block exactly when their contexts overlap (share a line).",
 ["inputs"],"all match lists (line numbers, context sizes, overlaps) consistent with one file",
 "The tests cover about ten fixed overlap layouts.",
 ["client/coalesce.go"],[("coalescing","client/coalesce.go:coalesceMatches, mergeMatchIntoBlock, matchToBlock")],observe=["lines printed by the client"])
p("C24","Client highlighting and naming never alter or lose text",
 "For every response, the command-line client prints each line with exactly its original text apart from terminal colour codes, colours exactly the parts of matching lines that match the pattern (no codes at all when the output is not a terminal), and names repositories by display name, else by the last path components of the URL, else by key, without crashing for any URL or response.",
 ["inputs"],"all lines, patterns, URLs and display names",
 "No test covers the presenters; URL naming has no test.",
 ["client/ack.go","client/client.go","ansi/ansi.go"],[("highlighting","client/ack.go:hiliteMatches, lineNumber, Present"),("names","client/client.go:repoNameFor, repoNameFromUrl"),("colours","ansi/ansi.go:Colorer")],
 observe=["bytes written by the presenter"])
p("C25","The git driver tracks the configured branch and reports failures",
 "A git pull or clone brings the working directory to the configured ref, or the detected remote head if enabled, or else the default branch, and returns the revision that is checked out, without surrounding whitespace. If any git command fails, the operation returns an error rather than a revision; detection failures fall back to the default branch; and the auto-generated files reported are exactly those git marks true.",
 ["inputs","fault_sequences"],"all driver settings, git outputs and failures of each command",
 "The test covers ref selection with a stub; no test covers command failures, output parsing or revision reporting.",
 ["vcs/git.go","vcs/vcs.go"],[("git driver","vcs/git.go:Pull, Clone, HeadRev, targetRef, detectRef, AutoGeneratedFiles, run")],
 observe=["commands executed, returned revision and error"])
p("C26","Every VCS driver clones when absent, pulls when present, reports failures",
 "A repository's working directory is cloned exactly when it does not exist and pulled otherwise; for Subversion, Mercurial and Bazaar any failing command makes the operation return an error, and success returns the trimmed revision the tool reports; configured Subversion credentials are passed on. Unknown VCS names and malformed settings of a driver that takes settings are errors, and every driver names its metadata directory as special.",
 ["inputs","fault_sequences"],"all drivers, tool outputs, command failures and directory states",
 "The tests only construct drivers.",
 ["vcs/vcs.go","vcs/svn.go","vcs/hg.go","vcs/bzr.go"],[("drivers","vcs/svn.go, vcs/hg.go, vcs/bzr.go"),("dispatch","vcs/vcs.go:PullOrClone, New, Register")],
 observe=["commands executed, returned revision and error"])
p("C27","Local driver revisions change exactly when watched content changes",
 "With change watching enabled, the revision of a local directory is a function of its file names and contents only: equal trees give equal revisions, and adding, removing, renaming or editing any file gives a different one (up to hash collisions). Without it the revision is fixed per location, URLs other than file:// are rejected, and unreadable content is an error.",
 ["inputs","histories"],"all pairs of directory trees differing in any file",
 "No test covers the local driver.",
 ["vcs/local.go"],[("content hash","vcs/local.go:HeadRev, myHash, Clone")],observe=["revision strings of two directory states"])
p("C28","Merging two indexes preserves names and postings",
 "Merging index B into index A yields an index whose files are exactly those of B plus those files of A that lie outside B's paths (a file lies in a path if its name starts with it), whose file names keep their sorted order, and whose posting lists contain exactly the files (under their new ids) that contained each trigram in the index they came from.",
 ["inputs"],"all pairs of index contents and path sets",
 "One fixed pair of indexes is merged by the test.",
 ["codesearch/index/merge.go"],[("merge","codesearch/index/merge.go:Merge, postMapReader, postDataWriter")],observe=["names and posting lists of the merged index"])
with open(sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
