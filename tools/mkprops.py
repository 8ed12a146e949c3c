#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Packing, finalising and reopening reproduces every file and tag",
  "After any set of files is packed with arbitrary valid names, contents and tags, and the package is finalised, reopening it from the written bytes yields exactly those names in packing order, every file's bytes and every tag unchanged, whether the package is one file or split in tags and data parts and whether content is read through the bulk, mmap or fsys access mode. The header reports the matching entry count, data size and layout.",
  ["inputs", "configurations"], "all file sets (any count incl. 0, sizes incl. 0 and page/64K boundaries, any tags) x {single, split} x {bulk, mmap, fsys}",
  "The tests pack a dozen fixed media files and compare them once; they never vary sizes around mapping granularity, names, tag payloads, empty files or the split/single layout systematically.",
  ["wpk.go", "writer.go", "tagset.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"],
  [("PackData / PackFile / Sync", "writer.go"), ("OpenStream / Parse", "wpk.go"), ("OpenTagset of the three taggers", "bulk, mmap, fsys")],
  [("files tags table", "ordered name -> tagset", "wpk.go FTT.tsm"), ("data offset/size", "data block extent", "wpk.go FTT")],
  ["Package.OpenFile, Enum, ReadFile, GetTagset, header getters"])

p("C02", "Any append history leaves exactly the model's content",
  "For any sequence of sessions (begin, append through the same or a freshly opened package object, finalise) mixing packing, aliasing, renaming, deleting and retagging, the package read back after each finalise contains exactly what a simple ordered name-to-(content, tags) model says, with nothing lost, resurrected, duplicated or overwritten. Data packed in earlier sessions stays byte-identical.",
  ["histories"], "all sequences of sessions and edit operations on single-file and split packages",
  "Tests contain one fixed two-step append; the guarantee is over every history of interleaved edits, finalises and reopenings.",
  ["writer.go", "wpk.go", "util/seqmap.go", "tagset.go"],
  [("Begin / Append / Sync", "writer.go"), ("insertion-ordered map", "util/seqmap.go")],
  [("write position", "where the next data block goes", "writer.go Append/Sync")],
  ["bytes of the package files; reopened package"])

p("C03", "Interrupted writing never yields a wrong package",
  "If writing is interrupted after any prefix of its write operations, opening what is on disk either reports a clean error or presents exactly the content of the last completed finalise (for a split package: the last completed flush or finalise). A split package stays openable with that content throughout all packing that follows a flush, while a single-file package that is being written is reported as not ready.",
  ["crash_points", "histories"], "every prefix of the sequence of write calls of every generated session history; single and split layouts",
  "No test interrupts writing; the quantifier is over every crash point of every history.",
  ["writer.go", "wpk.go", "README.md"],
  [("prebuild/ready signatures", "wpk.go Header.IsReady"), ("ordering of data, table and header writes", "writer.go Sync/Append/Begin")],
  [("header signature", "package state on disk", "wpk.go SignReady/SignBuild")],
  ["file bytes after each write call"])

p("C04", "Malformed package bytes are rejected or read safely",
  "For any bytes offered as a package (random, truncated or corrupted valid packages), opening, reading the package information, enumerating, and opening each entry finishes with a result or an ordinary error: no crash, no memory fault and no allocation out of proportion to the input. An entry of an accepted package lies inside the data area its header declares, and reading it yields exactly the bytes of that range of the file or an error, never other data.",
  ["inputs"], "all byte strings: truncations, bit flips, field-targeted mutations, splices of valid packages, and arbitrary bytes",
  "Tests only open packages the library has just written; hostile inputs are never tried.",
  ["wpk.go", "tagset.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go", "util/uintio.go"],
  [("header and table validation", "wpk.go OpenStream/Parse/CheckTagset"), ("tag iterator bounds", "tagset.go Next"), ("section bounds in the taggers", "bulk, mmap, fsys")],
  None, ["Package.OpenStream, GetPackageInfo, ReadFile"])

p("C05", "A tagset behaves as a map from tag ID to value",
  "Under any sequence of put, add, set and delete of values of any length, a tagset holds exactly the IDs and bytes an ordinary map with first-insertion order holds: set replaces or appends, add never overwrites, delete removes only its tag, and all other tags stay byte-identical. The reported change flags, the count, lookup and iteration agree with that map, and the ID zero behaves as any other ID.",
  ["histories", "inputs"], "all operation sequences over all 16-bit IDs and all value lengths that fit, with and without spare capacity in the slice",
  "Tests cover a few fixed tags; growing, shrinking and aliasing cases depend on operation order and slice capacity.",
  ["tagset.go"], [("Put/AddOk/SetOk/DelOk", "tagset.go"), ("iterator", "tagset.go Next")], None, ["Get, Has, Num, Iterator"])

p("C06", "Typed tag values round-trip and reject foreign widths",
  "Every value stored through a typed tag constructor (string, boolean, byte, 16/32/64-bit and variable-width unsigned, float, milliseconds time, full time) is returned unchanged by the matching reader, variable-width integers use the shortest of 1, 2, 4 or 8 bytes, and times keep their instant (to the millisecond or nanosecond). Readers of fixed-width types report failure on a payload of any other width instead of returning a value.",
  ["inputs"], "all values of each type, all payload widths",
  "Tests use single example values; boundaries (width changes, negative and far times, NaN bits) are not sampled.",
  ["tagset.go", "util/uintio.go"], [("tag constructors and converters", "tagset.go"), ("little-endian accessors", "util/uintio.go")], None, ["TagRaw/TagsetRaw getters"])

p("C07", "Renaming, aliasing and deleting touch only the name",
  "Renaming or aliasing a file makes its unchanged bytes and all its other tags available under the new name, and an alias and its original are afterwards independent (renaming, retagging or deleting one leaves the other intact). A missing source or an occupied target is refused with the corresponding not-exist/exist error and changes nothing, and deleting one name removes only that name.",
  ["histories", "inputs"], "all sequences of rename/alias/delete/retag over name pools with longer, shorter and equal-length names, in memory and after reopening",
  "Tests rename two fixed files; tag corruption depends on name lengths, tag order and aliasing of backing memory.",
  ["writer.go", "tagset.go", "wpk.go"], [("Rename/PutAlias/DelTagset", "writer.go, wpk.go"), ("copy of the tagset before change", "tagset.go CopyTagset")], None, ["ReadFile, GetTagset before and after reopening"])

p("C08", "Renaming a directory moves exactly its subtree",
  "Renaming a directory moves every file below it (and no file outside it, including siblings that share its name as a prefix) to the same relative place under the new directory with content and other tags unchanged, and returns the number moved. A name already taken at the target is either skipped or reported as an exist error, as requested, and is never overwritten or lost.",
  ["inputs", "histories"], "all trees, directory pairs (nested, overlapping, root, sub-workspace), skip modes",
  "The single example renames one directory without collisions or prefix siblings.",
  ["writer.go", "wpk.go"], [("RenameDir", "writer.go"), ("snapshot iteration", "util/seqmap.go Range")], None, ["Enum, ReadFile, returned count"])

p("C09", "Package information survives and is reported consistently",
  "Any package information set before finalising is returned unchanged after reopening, also when the package holds no files, survives later append sessions until replaced, and never appears as a file. The quick information reader returns the same header values and information as a full open of the same bytes at every point where the package is openable.",
  ["inputs", "histories"], "all information tagsets, empty and non-empty packages, states: just begun (split), finalised, under append",
  "One test stores a fixed label in a package that has files.",
  ["wpk.go", "writer.go"], [("info as first record", "wpk.go Parse/WriteTo"), ("GetPackageInfo", "wpk.go")], None, ["GetInfo, GetPackageInfo"])

p("C10", "All access modes and read styles deliver the same bytes",
  "For every packed file, reading, reading at an offset, seeking from start, current and end, and whole-file reading behave as on an in-memory reader over exactly that file's bytes in each of the bulk, mmap and fsys modes, and never expose neighbouring bytes of the package. Several open handles keep independent positions, and the handle's stat reports the file's name, size and non-directory mode. A closed handle gives an error or still these bytes, and never crashes.",
  ["inputs", "histories"], "all files (sizes and offsets incl. 0, page and 64K boundaries) x modes x sequences of Read/ReadAt/Seek on several handles",
  "Tests read whole files once per mode; partial and random access histories are not exercised.",
  ["bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go", "wpk.go"], [("section readers", "bulk, mmap, fsys")], None, ["RFile methods"])

p("C11", "The directory view is the tree implied by file names",
  "For any set of file names the package presents as a file system exactly the directories implied by them: listing a directory gives each direct child file and subdirectory once, sorted by name, with the right kind and size; opening, stating and walking directories agrees with that listing, and incremental listing delivers the same entries once each and then end-of-file. Names that are neither a file nor a directory are reported as not existing.",
  ["inputs"], "all name sets without a file that is also a directory prefix; all directories, chunk sizes and absent names",
  "Tests list a fixed small tree once; ordering, chunking, siblings sharing prefixes and absent names are not explored.",
  ["dir.go", "wpk.go", "tagset.go"], [("ReadDirN / OpenDir / PackDirFile", "dir.go"), ("Stat/Open/ReadDir", "wpk.go")], None, ["fs.ReadDir, fs.WalkDir, fs.Stat on the package"])

p("C12", "A sub-workspace equals the package seen through the prefix",
  "A sub-file-system for a directory shows exactly the files below that directory under their relative names: every lookup, open, stat, read, listing, glob, nested sub, packing, renaming and deletion through it has the effect of the same call on the root with the directory prefixed, and files outside (including prefix siblings) are never visible or affected. Full and trimmed paths are inverse, and a directory without files is reported as not existing.",
  ["inputs", "histories"], "all name sets, directories, nesting depths and operations through root and sub views",
  "Tests look at one directory of one package.",
  ["wpk.go", "writer.go", "dir.go"], [("Workspace prefixing", "wpk.go FullPath/TrimPath/Enum/Sub")], None, ["Sub(...) results"])

p("C13", "Glob returns exactly the matching files",
  "For any pattern, globbing a package, sub-workspace or union returns each contained file name that matches the pattern under the standard path-matching rules, once, and nothing else; a malformed pattern is reported as an error even when nothing could match.",
  ["inputs"], "all patterns (classes, stars, escapes excluded since backslash is a separator) x all name sets",
  "Tests use a handful of patterns on one tree.",
  ["wpk.go", "union.go"], [("Glob", "wpk.go, union.go")], None, ["Glob"])

p("C14", "A union shows the first package that has each name",
  "A union of packages behaves as one file system holding the union of their names where, for a name present in several, the first package in the list supplies stat, content and directory-entry data; key listing, glob, directory listing, sub and open all agree on this and list each name once. This holds also when the member packages are views on different sub-workspaces, and the special package entries give each member's own package.",
  ["inputs", "configurations"], "all lists of packages with overlapping names, member workspaces, directories and names",
  "The test unites fixed packages with hardly any conflicts.",
  ["union.go", "wpk.go", "dir.go"], [("Union methods", "union.go")], None, ["Union.*"])

p("C15", "Backslash and slash spellings of a name are equivalent",
  "Using a backslash-separated spelling instead of slashes in any call that takes a file or directory name (packing, lookup, stat, open, read, listing, sub, glob of a literal name, rename, alias, directory rename, delete) has exactly the same effect, and names are always stored with forward slashes.",
  ["inputs", "histories"], "all operation sequences with each name spelled with an arbitrary mix of separators",
  "No test compares spellings.",
  ["wpk.go", "writer.go", "dir.go", "union.go", "util/strutil.go"], [("slash normalisation", "util/strutil.go ToSlash and its callers")], None, ["package API"])

p("C16", "Concurrent packing and reading keep every file intact",
  "When several goroutines pack files through one open package while others look up, enumerate, list, read sizes and set or read the information, there is no data race, every packed file keeps exactly its own bytes in a region of its own, and the finalised package holds all of them. When several goroutines pack the same name, exactly one succeeds and the others get an exist error, and the entry has the winner's content.",
  ["schedules", "histories"], "generated sets of concurrent operations with generated yield points inside the data streams, run under the race detector",
  "Tests are sequential.",
  ["writer.go", "wpk.go", "util/seqmap.go"], [("writer mutex", "writer.go PackData"), ("map lock", "util/seqmap.go")], [("writer mutex", "serialises writes", "wpk.go FTT.mux")], ["package after Sync; race detector"])

p("C17", "The insertion-ordered map agrees with its model",
  "For any sequence of operations (set, insert-if-absent, look up, delete, remove-last, iterate with changes during iteration) the ordered map returns what a list of key-value pairs returns: overwriting keeps a key's position, deleting keeps the order of the rest, a re-inserted key goes last, and iteration visits the pairs present at its start in order. Concurrent use from several goroutines loses no update and has no data race.",
  ["histories", "schedules"], "all operation sequences over small key sets; generated concurrent programs under the race detector",
  "The container has no test of its own.",
  ["util/seqmap.go"], [("SeqMap", "util/seqmap.go")], None, ["SeqMap methods"])

p("C18", "Header and table encodings are inverse and agree with each other",
  "A header or files table written to a stream is read back equal both from a stream and from a byte slice, with the byte counts reported by writer and readers equal to the bytes written, also when the stream delivers the bytes in arbitrary small pieces. Every strict prefix of such an encoding is reported as an error.",
  ["inputs"], "all headers and tables, all fragmentations of the stream, all strict prefixes",
  "Tests only go through whole files, where every read returns all bytes at once.",
  ["wpk.go", "util/uintio.go"], [("WriteTo/ReadFrom/Parse", "wpk.go")], None, ["Header, FTT serialisation methods; integer and float stream readers"])

p("C19", "Lua tag operations follow the documented conversion rules",
  "From Lua, setting, adding, deleting and reading single tags or tables of tags changes exactly the named tags as documented (set replaces, add keeps existing values, delete ignores given values, returned flags and counts match), values read back as the documented representation of what was stored, and tag names and numbers are interchangeable. Unknown names, unconvertible values and protected tags raise an error and change nothing.",
  ["inputs", "histories"], "all sequences of tag operations with numeric, string, boolean and invalid keys and values",
  "The test scripts run fixed calls and do not compare results.",
  ["luawpk/luawpk.go", "luawpk/nametid.go"], [("value/tag conversion", "luawpk/nametid.go"), ("tag methods", "luawpk/luawpk.go")], None, ["Lua return values; tagsets"])

p("C20", "Packages built by Lua scripts equal the script's effect",
  "A package built by any Lua script of begin, load, append, flush, finalise, putdata, putfile, putalias, rename, renamedir, delalias and info calls, single or split, opens through the Go API with exactly the files, contents, aliases and information the calls describe, and the script-visible queries (hasfile, filesize, sumsize, glob, tagnum, datasize) report that state. Misuse (writing without an open package, beginning or appending while one is open, missing or duplicate names, flush of an unsplit package) raises an error and leaves the content unchanged.",
  ["programs", "histories"], "generated scripts over small name pools, single and split layouts, one or several script runs on the same package",
  "Four fixed scripts are run and only checked for success or a few files.",
  ["luawpk/luawpk.go", "luawpk/runlvm.go", "cmd/build/build.go"], [("Lua methods", "luawpk/luawpk.go")], None, ["resulting package files; Lua return values"])

p("C21", "Automatic Lua tags are correct for the packed content",
  "With the corresponding option on, each packed file carries the CRC-32C, CRC-64-ISO and keyed (HMAC) MD5/SHA digests of exactly its packed bytes, a content type taken from its extension or content, and a file ID not used by any other automatically numbered file of the package, including files of earlier sessions. Tags given explicitly with the file take precedence over automatic ones, and options that are off add nothing.",
  ["inputs", "configurations", "histories"], "all option combinations, secrets, contents and sessions",
  "A fixed script sets the options; nothing recomputes a digest.",
  ["luawpk/adjusttags.go", "luawpk/luawpk.go", "luawpk/mimeext.go"], [("adjusttagset", "luawpk/adjusttags.go")], None, ["tags of the package opened by the Go API"])

p("C22", "Pack then extract reproduces the source tree",
  "For any directory tree, running the pack utility and then the extract utility, with single or split output and with each opening mode, reproduces exactly the same relative file paths and bytes in the destination, a list of packages being extracted one over another in its order. This holds also when the package is written inside of the source tree (it is not put into itself), and when it is replaced by an entry with the name of its own file. An entry that can not be read or written completely is reported instead of announcing success, and wrong arguments are reported before anything is changed.",
  ["inputs", "configurations"], "all trees (names, depth, sizes) x {single, split} x {bulk, mmap, fsys}",
  "The utilities have no tests.",
  ["cmd/pack/pack.go", "cmd/extract/extract.go"], [("writepackage", "cmd/pack/pack.go"), ("readpackage", "cmd/extract/extract.go")], None, ["destination tree"])

p("C23", "Extraction never writes outside the destination",
  "Whatever names a package contains (parent references, absolute names, odd separators), the extract utility creates or changes no file outside the given destination directory, and all entries whose names stay inside are extracted or an error is reported.",
  ["inputs"], "all packages with hostile entry names, opening modes, layouts",
  "The utility has no tests and no package in the tests has such names.",
  ["cmd/extract/extract.go"], [("readpackage", "cmd/extract/extract.go")], None, ["file system around the destination"])

p("C24", "Pack options do what they say and nothing is silently dropped",
  "With several source directories the package holds the union of their files; with the link option every file records its original path, with the mime option its type by extension or by its content, and without them no such tag. When any source file could not be put in the package the utility reports the failure instead of announcing success; wrong arguments are reported before anything is changed.",
  ["inputs", "configurations"], "all option combinations, source lists, duplicate names across sources",
  "The utility has no tests.",
  ["cmd/pack/pack.go"], [("writepackage", "cmd/pack/pack.go")], None, ["package content, utility output"])

p("C25", "Environment references in paths expand as documented",
  "For any string and any environment, the path formatter replaces each $NAME, ${NAME} and %NAME% whose name is defined (looked up first in the given map, then in the process environment) by its value, and leaves all other text, including undefined and malformed references, unchanged, wherever in the string the reference stands.",
  ["inputs"], "all strings over text, names and delimiters; all maps and environments",
  "An example prints a dozen fixed strings.",
  ["util/strutil.go"], [("Envfmt", "util/strutil.go")], None, ["util.Envfmt, Lua path.envfmt"])

p("C26", "Path and text helpers agree with their reference definitions",
  "For all strings, slash conversion, ASCII lower/upper casing and the key form equal the bytewise definitions and leave their argument unmodified; path joining inserts exactly one separator between the parts; the tags/data part names of a package differ from it only in extension. The Lua path, hex and time helpers return what the corresponding standard functions return.",
  ["inputs"], "all strings",
  "Examples print a few fixed strings.",
  ["util/strutil.go", "dir.go", "luawpk/luapath.go", "luawpk/runlvm.go"], [("string helpers", "util/strutil.go")], None, ["util.*, MakeTagsPath, MakeDataPath, Lua helpers"])

p("C27", "An input/output failure is reported and harms no other file",
  "If the source reader, the output or seeking fails at any point during packing, appending or finalising, the call reports an error and no entry appears for a file whose data was not completely written. Files packed before or after the failure stay intact, and once the fault is gone the package can still be finalised and read back with exactly the successful files. A failure of the medium while a package is opened or a stored file is read is returned as well, never taken for its end or content. A package is refused as a source of its own data. The utilities and scripts report such failures as well and leave no package that passes for a complete one.",
  ["fault_sequences", "histories"], "every position of a failing read, write, short write or seek in generated histories, openings and readings",
  "No test injects a failure.",
  ["writer.go", "wpk.go"], [("error returns of PackData/Sync/WriteTo", "writer.go, wpk.go")], None, ["returned errors; package after recovery"])

p("C28", "Original file times are preserved",
  "A file packed from a file handle, of whatever file system, carries its source's modification time (and access, change and birth times where the source has them), to the nanosecond, through finalising and reopening, and the file information of the packed file reports them. Extraction with the original-time option restores modification and access times.",
  ["inputs"], "all instants incl. before 1970 and sub-second parts; OS files and other fs.File sources",
  "Tests compare nothing but the presence of tags.",
  ["writer.go", "tagset.go", "cmd/extract/extract.go"], [("PackFile time tags", "writer.go"), ("time getters", "tagset.go")], None, ["ModTime/AccessTime/ChangeTime/BirthTime, extracted files"])

p("C29", "A tagset too large for the format is refused, not truncated",
  "Finalising a package in which a file's tags or the package information exceed what the format can store reports the size error instead of writing a table that reads back differently; tags of exactly the maximum size are stored and read back intact. After the offending tags are reduced the package can be finalised normally.",
  ["inputs"], "all tagset sizes around the limit, for files and package information, single and split",
  "Tests have only small tags.",
  ["wpk.go", "writer.go"], [("size check in WriteTo", "wpk.go")], None, ["Sync error; reopened package"])

p("C30", "A split package can be read while it is being extended",
  "At every moment between operations of a process extending a split package, another reader that opens the two files sees exactly the content of the last flush or finalise, and readers opened earlier continue to read their own snapshot's file bytes unchanged while more files are packed and flushed.",
  ["histories", "schedules"], "all points of all packing histories after the first flush; readers opened at generated earlier points, all access modes",
  "One test packs to split files and reads them at fixed points.",
  ["writer.go", "wpk.go", "bulk/bulk.go", "mmap/mmap.go", "fsys/fsys.go"], [("data appended only at the end; table rewritten on flush", "writer.go")], None, ["files of the split package, open readers"])

p("C31", "Returned data is private to the caller",
  "A byte slice returned by whole-file reading is a copy: changing it affects neither later reads nor other callers, and it stays valid after the package is closed. Reusing the source buffer of a packed file, or editing a copied tagset, afterwards changes nothing in the package until the copy is put back, and then only its own entry.",
  ["inputs", "histories"], "all files and access modes, mutations by the caller before and after close",
  "No test mutates returned data.",
  ["wpk.go", "union.go", "tagset.go", "mmap/mmap.go"], [("copying ReadFile", "wpk.go"), ("CopyTagset", "tagset.go")], None, ["ReadFile, GetTagset"])

p("C32", "Scripts run in order in the documented environment, failures are reported",
  "The build utility runs the given scripts in order, each in a fresh Lua state with the documented globals (script, binary and temporary directories, version, log), with environment references in the paths expanded. A script that can not be read, has a syntax error, raises an error or makes a refused package call is reported with that error and no later script runs, while everything done before the failing statement stays; without failures nothing but the scripts' own messages is logged.",
  ["inputs", "histories"], "all lists of scripts, failing statement and kind of failure, by utility and by the Go call",
  "The tests run three fixed scripts that do not fail.",
  ["cmd/build/build.go", "luawpk/runlvm.go"], [("main", "cmd/build/build.go"), ("RunLuaVM", "luawpk/runlvm.go")], None, ["utility output, files made by scripts"])

p("C33", "Closing releases every file, and refused calls retain nothing",
  "Whatever sequence of calls is made on packages, their subdirectories and unions in any access mode, after the opened files and the packages are closed (in any order) no descriptor and no memory mapping of package files remains. Calls that open nothing for the caller, and all refused calls, retain nothing. Scripts keep only packages they left unfinalised open, and the utilities process any number of files and packages with a fixed small number of descriptors.",
  ["inputs", "histories"], "all call sequences incl. refused calls on damaged packages, all orders of closing, all access modes; any number of files",
  "No test counts descriptors or mappings.",
  ["wpk.go", "union.go", "mmap/mmap.go", "fsys/fsys.go", "luawpk/luawpk.go", "luawpk/luapath.go", "cmd/extract/extract.go", "cmd/pack/pack.go"], [("Close methods", "mmap/mmap.go, fsys/fsys.go, union.go"), ("closing after use", "wpk.go, luawpk/luawpk.go, cmd")], None, ["descriptors and mappings of the process; utilities under a descriptor limit"])

p("C34", "One opened package serves any number of goroutines",
  "Any number of goroutines may read one opened package at the same time: whole-file reading, own handles, offset reads through a common handle, stats, listings, walks, globs, subdirectories, tags, package information and the package as a whole, through the root, a subdirectory or a union and in every access mode, give each of them what it gets alone, with no data race. This holds also while the same process appends files to that package and flushes it; such a file is listed and readable with its content as soon as packing returned (fsys and mmap modes), and after finalising the package holds everything.",
  ["schedules", "histories"], "all sets of goroutines and calls, access modes, views, layouts, with and without concurrent appending",
  "The tests read from one goroutine.",
  ["wpk.go", "union.go", "dir.go", "mmap/mmap.go", "fsys/fsys.go", "bulk/bulk.go"], [("FTT map and its lock", "wpk.go, util/seqmap.go"), ("OpenTagset", "bulk/bulk.go, mmap/mmap.go, fsys/fsys.go"), ("Union calls", "union.go")], None, ["results of calls in each goroutine, race detector"])

p("C35", "Packages work as file systems with the standard library",
  "A package, a subdirectory of it or a union, in every access mode, can be given to the consumers of file systems in the standard library and behaves as any file system with these files: the HTTP file server gives the same answers (content, types, ranges, conditional requests, directory pages, redirects, not-found) as over an in-memory file system, archivers, directory copying, templates, walking, sub-trees and globbing see exactly the files with their sizes and modification times, and the conformance suites of file systems and readers pass.",
  ["inputs", "configurations"], "all sets of files, names that need escaping, requests, views, layouts and access modes",
  "No test gives a package to a consumer of the standard library.",
  ["wpk.go", "union.go", "dir.go", "tagset.go", "mmap/mmap.go", "fsys/fsys.go", "bulk/bulk.go"], [("fs.FS, SubFS, StatFS, GlobFS, ReadDirFS, ReadFileFS implementations", "wpk.go, union.go, dir.go"), ("fs.FileInfo and fs.DirEntry of tagset", "tagset.go"), ("PkgReader handles", "bulk/bulk.go, mmap/mmap.go, fsys/fsys.go")], None, ["answers of http.FileServer, archives, copies, fstest and iotest"])

p("C36", "Packages of one process do not influence each other",
  "Work on different packages, scripts and strings in different goroutines of one process gives each of them exactly what it gives alone, with no data race: packing and appending, tag operations, renaming, reading in every access mode, views and unions, globs, the file server, Lua scripts that build packages with automatic tags, and the text and path helpers have no state in common.",
  ["schedules", "histories", "inputs"], "all sets of goroutines, each with work of its own on packages of its own",
  "The tests work on one package at a time.",
  ["wpk.go", "writer.go", "union.go", "dir.go", "tagset.go", "util/strutil.go", "util/uintio.go", "luawpk/luawpk.go", "luawpk/adjusttags.go", "luawpk/runlvm.go"], [("package level variables", "util/strutil.go, luawpk/mimeext.go, luawpk/nametid.go"), ("RunLuaVM", "luawpk/runlvm.go"), ("table writing", "wpk.go")], None, ["results of each goroutine by the oracles of the other properties, race detector"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
