#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

prop("C01", "Versions have one consistent numeric order",
 "Versions built from dotted strings or integer tuples are ordered by their numeric components (9.10 comes after 9.9, a prefix comes before its extensions), and equality, all six comparison operators and hashing agree with each other and with comparison against the plain string or tuple. A patch version keeps only its first two components; the special version 'main' is accepted and equals only itself; the integer code of a patch version is season*100+patch, and that of 'main' is above every numbered patch. Strings or tuples that are not versions of the required length are rejected.",
 ["inputs"], "All canonical dotted version strings and integer tuples of any length, all pairs and triples of them.",
 "tests/test_storage.py checks about a dozen hand-picked comparisons; a total order is a statement about all pairs and triples.",
 ["cdtb/storage.py", "cdtb/rads.py"],
 [("BaseVersion comparison operators and __hash__", "cdtb/storage.py:BaseVersion"), ("truncation and 'main'", "cdtb/storage.py:PatchVersion"), ("four components required", "cdtb/rads.py:RadsVersion")],
 observe=["public version classes"])

prop("C02", "Patch listings are complete, ordered and exact",
 "For any history of stored elements whose patch versions never increase from newest to oldest, the list of patches contains each patch version exactly once, newest first, holding for each of game and client the newest element of that version and nothing else. Looking up a patch or an element by version returns exactly the one with that version (the newest one when no version is given). A lookup with no match reports absence instead of failing or returning another version.",
 ["histories", "inputs"], "All non-increasing sequences of (element name, patch version) with repeated sub-patches, single-element patches and empty storages; all looked-up versions, present or not.",
 "The tests list four single-element patches; grouping, de-duplication and lookups depend on the whole history.",
 ["cdtb/storage.py"],
 [("grouping by version, first element of each name wins", "cdtb/storage.py:Storage.patches"), ("lookups", "cdtb/storage.py:Storage.patch, Storage.patch_element"), ("latest elements", "cdtb/storage.py:Patch.latest")])

prop("C03", "Commands act on exactly the versions the user named",
 "A component written as patch=, game= or client= plus a version resolves to that version of that component, to the newest one when the version is empty, to nothing when it is not available, and any other text is rejected; listing commands print exactly the resolved versions or files, and hashes-guess searches exactly the archives of the resolved versions. Exporting a named (or the latest) patch compares it with the explicitly given previous patch, with none for a full export, and otherwise with the next older stored patch, and writes to a directory named after the patch version. Exporting without naming a patch updates every already exported patch from the given first version on, oldest first: the first one in full, each later one compared with the next older exported one.",
 ["inputs", "histories"], "All component strings, all sets of stored patches, all sets of already exported directories, all combinations of export options.",
 "tests/test_cli.py runs three export command lines over one fixed list of four patches and mocks the exporter.",
 ["cdtb/__main__.py", "cdtb/storage.py", "cdtb/export.py"],
 [("component grammar", "cdtb/storage.py:parse_storage_component"), ("choice of the previous patch", "cdtb/__main__.py:command_export"), ("multi-patch update", "cdtb/export.py:CdragonRawPatchExporter.from_directory")])

prop("C04", "Storage locations and options mean what they say",
 "A storage given as type:path, as a configuration file, as a directory holding one, or as a directory with a recognisable layout opens a storage of that type at that location with exactly the configured options, where a relative location in a configuration file is relative to that file. A patchline chosen on the command line always takes effect or is refused, whether or not a storage location is given as well. Unknown types, missing types, unrecognisable directories and contradictory options are rejected instead of being guessed.",
 ["configurations"], "All ways to write a storage location, all option combinations of both storage types, all working directories.",
 "No test opens a storage from a path or a configuration.",
 ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/__main__.py"],
 [("path parsing", "cdtb/storage.py:storage_conf_from_path, load_storage_conf, guess_storage_conf"), ("type registry", "cdtb/storage.py:StorageRegister, Storage.from_conf"), ("per-type options", "cdtb/patcher.py:PatcherStorage.from_conf_data; cdtb/rads.py:RadsStorage.from_conf_data"), ("command line", "cdtb/__main__.py:parse_storage_args")])

prop("C05", "RADS listings merge both solutions without loss",
 "For any contents of the client and game solutions whose patch versions never decrease from one release to the next, the element listing contains every solution version that has a patch version exactly once, from the highest patch version down and, inside one solution, from the newest release down; releases whose file list is gone from the server are skipped and any other server error is reported. The patch version of an element is the one recorded in the files of that release, is remembered once known, and is then never downloaded again. Listing stored versions only uses releases present on disk.",
 ["inputs", "histories", "fault_sequences"], "All pairs of release lists with any patch version assignment non-increasing with age, releases with and without cached version, missing server files and server errors.",
 "tests/test_rads.py checks one three-line listing and operator results; it never merges solutions nor retrieves a patch version.",
 ["cdtb/rads.py", "cdtb/storage.py"],
 [("two-way merge", "cdtb/rads.py:RadsStorage.patch_elements"), ("version retrieval and cache", "cdtb/rads.py:RadsSolutionVersion.patch_version, _retrieve_patch_version"), ("version readers", "cdtb/storage.py:get_system_yaml_version, get_exe_version")],
 state=[("_patch_version", "cached patch version of a solution version", "solutions/<name>/releases/<version>/_patch_version")])

prop("C06", "RADS language selection picks exactly the listed projects",
 "For any well-formed solution manifest, selecting no language gives exactly the required projects, selecting one language or a list of languages (given as language values or as their codes) gives exactly the projects these languages depend on, and selecting all gives the union of everything, each project at the version the manifest states and without duplicates. The file listing and the download of an element cover exactly the files of the selected projects. A manifest for another solution or version, or of another format, is refused.",
 ["inputs"], "All solution manifests: any number of required and optional projects, languages and dependency lists; all language selections.",
 "No test parses a solution manifest.",
 ["cdtb/rads.py"],
 [("manifest parsing", "cdtb/rads.py:RadsSolutionVersion.dependencies"), ("selection", "cdtb/rads.py:RadsSolutionVersion.projects"), ("paths", "cdtb/rads.py:RadsPatchElement.fspaths, relpaths, paths")])

prop("C07", "RADS extraction reproduces every package file exactly",
 "Extracting a project version writes every listed file with exactly the bytes stored for it in its package (decompressed when the entry is compressed), whatever the order and gaps of entries in the packages and however the download stream is cut into pieces. Each needed package is fetched once, packages without a missing file are not fetched, and files already extracted are left untouched. If a download fails or ends early an error is raised, the interrupted file is not left behind, and a later extraction completes the set. A download of the whole version also stores its release manifest as served.",
 ["inputs", "fault_sequences", "histories"], "All package layouts, compression mixes, stream chunkings, subsets already present, and stream failures at any byte.",
 "tests/test_rads.py only parses one package manifest; nothing is ever extracted.",
 ["cdtb/rads.py", "cdtb/storage.py", "cdtb/tools.py"],
 [("offset-ordered streaming", "cdtb/rads.py:RadsProjectVersion.extract"), ("re-chunking reader", "cdtb/storage.py:RequestStreamReader"), ("entry parsing", "cdtb/rads.py:BinPackageFile")])

prop("C08", "Release manifests are decoded completely and exactly",
 "For every well-formed release manifest, whatever the layout of its tables and omitted fields, the decoded file list has exactly one entry per file with its full directory path, size, link target, language flags, and chunks in order, each with its bundle and its position and sizes inside that bundle. The result is the same whether the manifest is given as a path or as an open file. Anything that is not a supported manifest is refused.",
 ["inputs"], "All manifests: any directory nesting, field subsets, shared or separate field layouts, object orders, flag masks, bundle and chunk counts, supported format versions.",
 "cdtb.patcher is only imported by the tests.",
 ["cdtb/patcher.py"],
 [("table walking", "cdtb/patcher.py:PatcherManifest._parse_table, _parse_field_table"), ("merging files with directories, flags and chunks", "cdtb/patcher.py:PatcherManifest.parse_body"), ("chunk offsets", "cdtb/patcher.py:PatcherBundle.add_chunk")])

prop("C09", "Patcher language filters select exactly the right files",
 "For every release manifest, selecting all languages gives every file, selecting none gives exactly the files without a locale flag, and selecting a language or a list of languages gives exactly the files flagged with one of them, compared case-insensitively. The listed paths (on disk and for export), the downloaded bundles and the extracted files of an element all follow the same selection. Export paths are the lowercased manifest paths, paired in order with their location on disk.",
 ["inputs", "configurations"], "All flag assignments (none, locale, non-locale, several), all language selections.",
 "No test filters a manifest.",
 ["cdtb/patcher.py"],
 [("predicate", "cdtb/patcher.py:PatcherFile.langs_predicate, PatcherManifest.filter_files"), ("element paths", "cdtb/patcher.py:PatcherPatchElement")])

prop("C10", "Patcher downloads rebuild every file from its chunks",
 "After an element is downloaded, every selected regular file exists at its listed location and contains exactly the concatenation of its decompressed chunks, with or without the shared-file symlink mode, and files with the same content share storage without ever mixing contents; the storage directory can be moved as a whole. Every bundle that is needed by a file not yet extracted is fetched exactly once, other bundles and already stored manifests are not fetched, under any completion order of the parallel downloads. Downloading again changes and fetches nothing; a failed bundle download is reported and never leaves a file with wrong content.",
 ["inputs", "schedules", "fault_sequences", "histories"], "All releases (chunk sharing between files, releases and bundles, empty files), both storage modes, all interleavings of the download pool, failing or slow bundle requests, repeated downloads and language selections.",
 "No test downloads or extracts anything from a patcher storage.",
 ["cdtb/patcher.py", "cdtb/storage.py", "cdtb/tools.py"],
 [("bundle selection and thread pool", "cdtb/patcher.py:PatcherReleaseElement.bundle_ids, download_bundles"), ("chunk assembly and symlinks", "cdtb/patcher.py:PatcherStorage.extract_file, load_chunk"), ("content key", "cdtb/patcher.py:PatcherFile.hexdigest")],
 state=[("cdtb/files/", "shared extracted files keyed by chunk ids", "storage directory")])

prop("C11", "The release history is append-only and faithful",
 "Checking for updates records a new release exactly when the published client or game manifest differs from the latest recorded release, keeps all earlier releases unchanged, and never touches the history of another patchline; the latest timestamp is that of the newest release. Releases are listed newest first whatever the directory order, ignoring foreign files, and listing only stored data performs no update check. The patch version of a release is read from its own files (always 'main' on PBE) and is remembered without further downloads.",
 ["histories", "configurations", "fault_sequences"], "All sequences of published manifest pairs, update checks at increasing times, both patchlines sharing a directory, failing update requests, foreign files.",
 "No test contacts (a fake of) the CDN or builds a release history.",
 ["cdtb/patcher.py"],
 [("update check", "cdtb/patcher.py:PatcherStorage.fetch_latest_update, latest_timestamp"), ("listing", "cdtb/patcher.py:PatcherStorage.iter_releases, patch_elements"), ("version cache", "cdtb/patcher.py:PatcherReleaseElement.patch_version")],
 state=[("latest.timestamp", "version of the latest known release", "cdtb/releases/<patchline>/"), ("release.json", "manifest URLs of one release", "cdtb/releases/<patchline>/<timestamp>/")])

prop("C12", "A killed storage operation can always be resumed",
 "If the process is killed at any point while checking for updates, downloading or extracting, running the same operation again without interference ends in the same state as an uninterrupted run: every release, patch version and extracted file is complete and correct. No truncated or empty file left by the killed process is ever taken for a finished one. Nothing that was complete before the killed run is lost.",
 ["crash_points", "histories"], "A kill at every executed source line, and at every byte limit of a written file, of an update, download or extraction, for both storage types and both patcher storage modes.",
 "The tests never interrupt an operation.",
 ["cdtb/tools.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/storage.py"],
 [("file writing", "cdtb/tools.py:write_file_or_remove"), ("presence checks", "cdtb/storage.py:Storage.download; cdtb/patcher.py:PatcherStorage.extract_file, PatcherReleaseElement.is_extracted_file; cdtb/rads.py:RadsProjectVersion.extract"), ("cached versions", "cdtb/patcher.py:PatcherReleaseElement.patch_version; cdtb/rads.py:RadsSolutionVersion.patch_version")])

prop("C13", "A failed write never leaves a partial result",
 "When writing a downloaded, extracted or converted file or directory fails for any reason (an exception in the producer, an interrupt, a full disk), the partial file or directory is gone afterwards, the error is still reported to the caller, and unrelated files are untouched. When writing succeeds the target holds exactly what was written, with missing parent directories created and previous content replaced.",
 ["fault_sequences", "inputs"], "All failure points inside a write (before, between and after chunks, at closing time, file size limit reached), all kinds of exceptions including interrupts, text and binary, new and existing targets, files and directories.",
 "No test makes a write fail.",
 ["cdtb/tools.py", "cdtb/storage.py", "cdtb/wad.py", "cdtb/export.py"],
 [("file cleanup", "cdtb/tools.py:write_file_or_remove"), ("directory cleanup", "cdtb/tools.py:write_dir_or_remove"), ("users", "cdtb/storage.py:Storage.download; cdtb/wad.py:WadFileHeader.extract; cdtb/export.py converters")])

prop("C14", "WAD archives give back exactly the archived content",
 "For every well-formed WAD archive of every supported format version, the entry list has exactly one entry per archived file, in archive order, with its path resolved if and only if its hash is in the hash list. Reading an entry gives exactly the original bytes for every storage method (stored, gzip, zstd, split into subchunks), and file redirections give no data. Other magic codes and unsupported versions are refused.",
 ["inputs"], "All archives: versions 1 to 3.x, entry counts and orders, overlapping and shared data ranges, gaps, every compression mix, subchunk indexes above 65535, empty files, all hash lists.",
 "cdtb.wad is only imported by the tests.",
 ["cdtb/wad.py"],
 [("header layouts", "cdtb/wad.py:Wad.parse_headers"), ("entry decoding", "cdtb/wad.py:WadFileHeader.read_data"), ("path resolution", "cdtb/wad.py:Wad.resolve_paths")])

prop("C15", "Corrupt WAD subchunks are detected and isolated",
 "When the data of a split archive entry does not match its table of contents (damaged bytes, missing bytes, or a table that is too short or disagrees), the entry is reported as unreadable and skipped; wrong or partial content is never returned or written for it. All other entries of the same archive are still read and extracted correctly. A split entry without any table of contents is read when it is plainly decodable and skipped otherwise.",
 ["inputs", "fault_sequences"], "All single and multiple corruptions of subchunk data and tables: any position, truncation at any subchunk, swapped or shifted tables, missing table.",
 "No test reads a subchunked entry.",
 ["cdtb/wad.py"],
 [("per-subchunk hash check", "cdtb/wad.py:WadFileHeader.read_data"), ("skipping", "cdtb/wad.py:Wad.read_file_data, WadFileHeader.extract"), ("table lookup", "cdtb/wad.py:Wad.load_subchunk_toc")])

prop("C16", "WAD extraction writes each entry once, at its own place",
 "Extracting an archive creates exactly one file per readable entry, with the entry's content: at its resolved path, or for an unresolved one at unknown/<16-digit hash> with the detected extension if any. Names without extension get a distinguishing suffix so that files and directories never collide, and over-long names are shortened while keeping their hash and extension so that distinct entries stay distinct. With lazy extraction, files already on disk are left untouched; the pattern and unknown-file filters of the command line select exactly the matching entries; redirections and names the file system cannot hold are skipped without stopping the extraction.",
 ["inputs", "histories", "configurations"], "All archives and hash lists, name lengths around the limits, extension-less names that equal directory names, pre-existing outputs, all filter combinations.",
 "Nothing is extracted by the tests.",
 ["cdtb/wad.py", "cdtb/__main__.py"],
 [("naming", "cdtb/wad.py:Wad.sanitize_paths, Wad.set_unknown_paths"), ("extraction loop", "cdtb/wad.py:Wad.extract, WadFileHeader.extract"), ("filters", "cdtb/__main__.py:command_wad_extract, command_wad_list")])

prop("C17", "Extraction and export never write outside their output",
 "Whatever paths appear in hash lists, archives and meshes, extracting an archive, extracting a mesh and exporting files create, change or delete files only inside the given output directory; for exports, this holds whatever links an earlier export left in the output tree. Entries whose name would lead outside are skipped or stored under a safe name inside the output, and the remaining entries are still processed.",
 ["inputs"], "All entry names, including absolute paths, parent references, empty and dot components, in archives, hash lists and mesh files.",
 "No test uses a hostile name; containment is a statement about every write.",
 ["cdtb/wad.py", "cdtb/export.py", "cdtb/__main__.py"],
 [("path sanitising", "cdtb/wad.py:Wad.sanitize_paths"), ("extraction", "cdtb/wad.py:Wad.extract"), ("mesh parts", "cdtb/export.py:SknConverter; cdtb/__main__.py:command_skn_extract"), ("clean-up", "cdtb/export.py:Exporter.clean_output_dir")])

prop("C18", "File types of unnamed entries are detected consistently",
 "The extension detected for an unnamed archive entry is the one of its content signature, for every known signature and whatever follows it; a longer, more specific signature wins over a shorter one; JSON text is recognised as json; and content with no known signature gets no extension. Entries that already have an extension keep it. The outcome for an entry does not depend on the other entries of the archive, and detection never fails because of an entry's content.",
 ["inputs", "histories"], "All contents starting with, containing or nearly matching the known signatures, empty contents, text and binary tails, order of archives and entries.",
 "No test detects a file type.",
 ["cdtb/wad.py"],
 [("signature table", "cdtb/wad.py:WadFileHeader.guess_extension"), ("per-archive pass and cache", "cdtb/wad.py:Wad.guess_extensions")],
 state=[("_hash_to_guessed_extensions", "process-wide cache of detected extensions by path hash", "cdtb/wad.py")])

prop("C19", "Hash lists survive saving, loading and updating",
 "Saving a hash list and loading it again gives exactly the same mapping, written one entry per line as a zero-padded hexadecimal hash of the list's width, a space, and the path, sorted by path. Loading is cached until forced, and a missing list is reported as such. Updating the lists from the server downloads exactly the lists that are missing locally or older than the server's copy, and a failed update or an interrupted saving leaves the previous list or the new one, never a partial one. The directory of the lists is the one the documented environment variables and options select.",
 ["inputs", "histories", "fault_sequences"], "All mappings (paths with spaces and non-ASCII text, zero and maximal hashes), all save/load/modify sequences, all orders of local and remote times, failing requests.",
 "No test loads, saves or fetches a hash list.",
 ["cdtb/hashes.py", "cdtb/__main__.py"],
 [("load and save", "cdtb/hashes.py:HashFile"), ("conditional update", "cdtb/hashes.py:update_default_hashfile"), ("list of files", "cdtb/__main__.py:command_fetch_hashes")])

prop("C20", "Hash guessing only ever adds correct new paths",
 "Whatever guessing methods are run on whatever archives and hash lists, every path added to a hash list hashes to the value it is listed under, that value was one of the wanted unknown hashes, and no existing entry is changed or removed. A hash is unknown or known but never both, each found hash leaves the unknown set exactly when it is added, and nothing is lost in between. The saved list holds exactly the previous entries plus the found ones, and a dry run or a run without a find leaves it unchanged.",
 ["inputs", "histories"], "All sequences of guessing methods over all hash lists, unknown sets and archive contents.",
 "No test runs a guessing method.",
 ["cdtb/hashes.py", "cdtb/__main__.py"],
 [("bookkeeping", "cdtb/hashes.py:HashGuesser.check, check_iter, is_known, _add_known"), ("command", "cdtb/__main__.py:command_hashes_guess")],
 state=[("known", "hash to path mapping, shared with the hash list", "cdtb/hashes.py:HashGuesser"), ("unknown", "wanted hashes not yet known", "cdtb/hashes.py:HashGuesser")])

prop("C21", "Each guessing method finds all variants in its domain",
 "If a wanted hash belongs to a path that differs from a known path only as a guessing method describes, running that method finds it: another number in the file name, another known file name in a known directory, another known extension or suffix, another word of the word list substituted or added, another region, language, plugin, character or skin number, a standard prefix, a character's standard files, shader variants, or the client/game counterpart of a path. What a method finds does not depend on the order of the hash list. The hashes-guess command runs the requested methods and no other one, by default all but \"basenames\" and \"words\".",
 ["inputs"], "All hash lists and, for each method, all variants it describes, for the client and the game lists.",
 "No test runs a guessing method; completeness is a statement about every variant.",
 ["cdtb/hashes.py"],
 [("generic methods", "cdtb/hashes.py:HashGuesser"), ("client methods", "cdtb/hashes.py:LcuHashGuesser"), ("game methods", "cdtb/hashes.py:GameHashGuesser")])

prop("C22", "Searching archives finds the paths they mention",
 "When a wanted hash belongs to a path that an archive mentions in one of the recognised forms (length-prefixed strings in binary game data, preload names, shader includes, atlas lines, path-like text, plugin resource references and relative references in client text files), searching that archive finds it whatever surrounds it, and one unreadable or oddly encoded file does not stop the search of the others. Archives of the other kind (client or game) are ignored when guessers are built from a list of archives.",
 ["inputs"], "All archives mentioning paths at any position, in upper or mixed case, in each recognised file type, amid arbitrary bytes.",
 "No test searches an archive.",
 ["cdtb/hashes.py"],
 [("game search", "cdtb/hashes.py:GameHashGuesser.grep_wad, grep_file"), ("client search", "cdtb/hashes.py:LcuHashGuesser.grep_wad"), ("archive selection", "cdtb/hashes.py:LcuHashGuesser.from_wads, GameHashGuesser.from_wads")])

prop("C23", "BIN files are decoded completely, for every format age",
 "For every well-formed BIN file, plain or patch, of every version and with the type numbering of every patch age, decoding yields exactly the stored linked files, entries, fields and values of every type at every nesting depth, in file order. Its JSON form contains exactly these values under the known names of their hashes, or the hashes in braces when unknown, with each object's type, the linked files and the patch section; numbers and text survive unchanged.",
 ["inputs", "configurations"], "All value trees over all value types, container element types and nesting, all three type numberings, header versions 1 to 3+, hash lists knowing any subset of names.",
 "cdtb.binfile is only imported by the tests.",
 ["cdtb/binfile.py", "cdtb/export.py", "cdtb/__main__.py"],
 [("value readers", "cdtb/binfile.py:BinReader"), ("type renumbering", "cdtb/binfile.py:BinReader.parse_bintype"), ("JSON form", "cdtb/binfile.py:*.to_serializable; cdtb/export.py:BinConverter; cdtb/__main__.py:command_bin_dump")])

prop("C24", "BIN lookups work by name and by hash alike",
 "Looking up a field of a BIN object by its name (in any letter case), by its numeric hash or by a hash object gives the same field, whether or not the name is in the hash list; a missing field gives the default or a lookup error and is reported as not contained. Value lookups unwrap lists, maps and options, path lookups follow nested fields, and assigning replaces the field of that name or adds it. Comparing hashed values with each other, with numbers and with their names is consistent with their hashes.",
 ["inputs", "configurations"], "All BIN objects, all names in all letter cases, hash lists knowing any subset of them.",
 "No test builds a BIN object.",
 ["cdtb/binfile.py"],
 [("field access", "cdtb/binfile.py:BinObjectWithFields"), ("hash equality", "cdtb/binfile.py:BinHashBase"), ("hash functions", "cdtb/binfile.py:compute_binhash, BinPathValue.compute_hash")])

prop("C25", "Damaged BIN files are refused, not misread",
 "A BIN file that is cut short at any byte, that lacks its signature, that uses an unknown value type, or whose entry lengths disagree with their content is refused with an error. Decoding never returns a result with silently missing or shortened values for such a file.",
 ["inputs", "fault_sequences"], "Every truncation point of every BIN file, all single damages of signature, type codes and entry lengths.",
 "No test decodes a BIN file.",
 ["cdtb/binfile.py"],
 [("fixed-size reads and entry length check", "cdtb/binfile.py:BinReader.read_fmt, read_binfile_entry"), ("signatures", "cdtb/binfile.py:BinFile.__init__"), ("type check", "cdtb/binfile.py:BinReader.parse_bintype")])

prop("C26", "String tables give every text under its key",
 "For every well-formed string table of every supported version and game age, decoding yields exactly one text per stored entry (encoded entries as base64, invalid UTF-8 replaced rather than failing), including when entries share or overlap text data. Looking up by key text in any letter case or by hash gives the same result as the stored entry, and absent keys give the default or a lookup error. Its JSON form holds every text under the known key of its hash, or the hash in braces when unknown; other signatures and versions are refused.",
 ["inputs", "configurations"], "All tables: versions 2 to 5, both hash widths per age, both hash functions, text with any bytes, shared offsets, encoded entries, hash lists knowing any subset of keys.",
 "cdtb.rstfile is only imported by the tests.",
 ["cdtb/rstfile.py", "cdtb/export.py"],
 [("decoding", "cdtb/rstfile.py:RstFile.parse_rst"), ("key hashing", "cdtb/rstfile.py:key_to_hash, RstFile.__getitem__"), ("JSON form", "cdtb/export.py:RstConverter")])

prop("C27", "Meshes are converted with their geometry intact",
 "For every well-formed mesh file of every supported version, decoding yields one part per submesh with its name and exactly the vertices and triangles of its ranges. The OBJ text of a part lists each vertex with its position, texture coordinate and normal in order, and each triangle as well-formed face references to that part's own vertices, so that resolving every face gives back the original triangles. Each part is written to a file named after it; files that are not meshes are refused.",
 ["inputs"], "All meshes: major versions 0, 2 and 4, all vertex types, any split into submeshes, any triangle lists inside the submesh ranges.",
 "cdtb.sknfile is only imported by the tests.",
 ["cdtb/sknfile.py", "cdtb/export.py", "cdtb/__main__.py"],
 [("decoding and index rebasing", "cdtb/sknfile.py:SknFile"), ("OBJ text", "cdtb/sknfile.py:SknFile.to_obj"), ("writing", "cdtb/export.py:SknConverter; cdtb/__main__.py:command_skn_extract")])

prop("C28", "Textures are converted to PNG with the right pixels",
 "For every supported texture, the exported PNG has the texture's width and height and exactly the pixels of its full-size image, for every pixel format and with or without mipmaps. Images in the game's standard image formats are converted the same way, under the same path with a .png extension. Content that is not a decodable texture is reported as a conversion failure and leaves no file.",
 ["inputs"], "All sizes including 1 and non-multiples of the block size, all texture formats, with and without mipmap chain, random pixel data, truncated and foreign content.",
 "No test converts an image.",
 ["cdtb/export.py"],
 [("TEX to DDS", "cdtb/export.py:TexConverter.tex_to_dds"), ("PNG writing", "cdtb/export.py:TexConverter, ImageConverter")])

prop("C29", "Atlas and skin tables are converted entry by entry",
 "The JSON form of every well-formed texture atlas table, in both its text-based and its hash-based layout, maps each texture to its coordinates and to the exported path of the atlas it lies in (lowercased, with image extensions as exported), using the hash in braces for unknown hashes. The JSON form of the champion skin table maps every champion to each of its skins with name and prestige flag. Unsupported tables are refused.",
 ["inputs"], "All tables: any number of atlases, textures, champions and skins, any names and coordinates, hash lists knowing any subset.",
 "No test converts a table.",
 ["cdtb/export.py", "cdtb/tools.py"],
 [("atlas", "cdtb/export.py:AtlasInfoConverter"), ("skins", "cdtb/export.py:ChampionSkinInfoConverter"), ("exported path of a texture", "cdtb/tools.py:convert_cdragon_path")])

prop("C30", "An incremental export shows the same tree as a full one",
 "Exporting a patch with links to the previous patch's export gives, when links are followed, exactly the same files with the same contents as a full export of that patch. Every link points to an existing file or directory of the previous export that is unchanged in the new patch, every unchanged file is reached through a link, and every new or changed file is a real file. Without links, an export against a previous patch holds exactly the files that are new or changed.",
 ["inputs", "histories"], "All pairs of consecutive patches: files added, removed, changed, moved between archives, unchanged; plain and archived, converted to one or several files or directories; chains of several patches.",
 "tests/test_export.py checks the path reduction on two hand-written lists; no export is ever run.",
 ["cdtb/export.py"],
 [("removing common files", "cdtb/export.py:Exporter.filter_exporter"), ("link selection", "cdtb/export.py:reduce_common_paths, CdragonRawPatchExporter.process"), ("linking", "cdtb/export.py:CdragonRawPatchExporter._create_symlinks")])

prop("C31", "Re-exporting leaves exactly the current patch, nothing else",
 "Whatever an output directory held before (an earlier export of another state of the patch, with or without links, leftovers of an interrupted export, foreign files), exporting into it, in full or with links, ends in the same tree as exporting into an empty directory. Previous patches' exports are never modified, even where the output was linked to them. Exporting the same patch twice changes nothing the second time, and a lazy export keeps files that are already present and adds the missing ones.",
 ["histories", "inputs"], "All prior contents of the output directory produced by earlier exports of any patch states, foreign files and links; all option changes between runs.",
 "No export is ever run by the tests.",
 ["cdtb/export.py"],
 [("clean-up", "cdtb/export.py:Exporter.clean_output_dir, walk_output_dir"), ("process", "cdtb/export.py:CdragonRawPatchExporter.process"), ("lazy mode", "cdtb/export.py:FileConverter.converted_paths_exist")])

prop("C32", "One bad game file never spoils an export",
 "If some files of a patch are damaged (an undecodable image, texture, BIN, mesh, string table, atlas or skin table, or an unreadable archive entry), the export still completes and all other files are exported exactly as without the damaged ones (TFT and Arena data, which are made of many files, aside). For a damaged file no partial or wrong converted output remains; files that are exported unchanged next to their conversion are still exported.",
 ["inputs", "fault_sequences"], "Every convertible file type with every kind of damage (truncated at any byte, random bytes, foreign content), alone or combined, in archives and as plain files.",
 "No export is ever run by the tests.",
 ["cdtb/export.py"],
 [("per-file error handling", "cdtb/export.py:Exporter._export_wad, _export_plain_file"), ("conversion errors", "cdtb/export.py:FileConversionError and converters")])

prop("C33", "Export selects and names files by the published rules",
 "An export contains exactly the files of the patch that the publishing rules keep: all client files, and from game archives only images, meshes, text, string tables, JSON, fonts and BIN files except skin-bundle BINs, under game/ (in a per-language directory for language archives since 14.4), never executables or libraries; unnamed files appear under an unknown directory (that of their plugin for plugin archives). The list of exported files names exactly the exported paths after conversion, the list of unknown hashes exactly the hashes without known path, the list of links exactly the links made, each sorted.",
 ["inputs", "configurations"], "All patches: any mix of plain files and archives, named and unnamed entries, file types, language archives, patch versions before and after 14.4.",
 "No export is ever run by the tests.",
 ["cdtb/export.py"],
 [("selection and renaming", "cdtb/export.py:CdragonRawPatchExporter._transform_exported_files"), ("index files", "cdtb/export.py:CdragonRawPatchExporter.process")])

prop("C34", "TFT data is exported complete and cross-referenced",
 "For every supported patch version, the TFT data of an export holding all files of the patch (in full or with links) contains every non-template item, every set that has its characters, traits and name, and in each set exactly the champions and traits its lists refer to, with the statistics, abilities, effects, compositions and trait references of the game data resolved to names. Names and descriptions are replaced by the text of the language where one exists and kept otherwise, one file per available language, and one language's text never appears in another's file.",
 ["inputs", "configurations"], "All game data: sets, mutators, champions with missing files, items with compositions and traits, old and new field names, string table formats, sets of languages, patch versions from 9.14 on.",
 "cdtb.tftdata is only imported by the tests.",
 ["cdtb/tftdata.py", "cdtb/export.py", "cdtb/tools.py"],
 [("template", "cdtb/tftdata.py:TftTransformer.build_template and parse_*"), ("languages", "cdtb/tftdata.py:TftTransformer.export, load_translations"), ("string tables", "cdtb/tools.py:stringtable_paths")])

prop("C35", "Arena data is exported complete, in every language",
 "For every supported patch version, the Arena data of an export holding all files of the patch (in full or with links) contains exactly the enabled augments of the game data, each with its identifiers, icons as exported paths, rarity, data values and calculations of its root spell. Names, descriptions and tooltips are replaced by the text of the language where one exists and kept otherwise, in one file per available language.",
 ["inputs", "configurations"], "All game data: enabled and disabled augments, with and without spells, value and calculation fields, old and new field names, string table formats of every age from 13.14 on, sets of languages.",
 "cdtb.arenadata is not even reached by the tests.",
 ["cdtb/arenadata.py", "cdtb/export.py", "cdtb/tools.py"],
 [("augments", "cdtb/arenadata.py:ArenaTransformer.parse_augments"), ("languages", "cdtb/arenadata.py:ArenaTransformer.export"), ("call from export", "cdtb/export.py:CdragonRawPatchExporter.export_arena_data")])

prop("C36", "Common-path reduction links only what is fully unchanged",
 "For any set of new-patch paths present in the previous patch and any set of excluded (changed) paths, the reduced list covers exactly the given paths: each is covered by exactly one listed path, no listed directory contains an excluded path or a previous-patch path that is not given, and the list is as short as these rules allow below the root. Identical inputs without exclusions reduce to the root's own entries.",
 ["inputs"], "All path sets (shared prefixes, names that are prefixes of others, files next to directories of similar name, deep and wide trees) and exclusion sets.",
 "tests/test_export.py checks two hand-written lists.",
 ["cdtb/export.py"],
 [("tree comparison", "cdtb/export.py:paths_to_tree, reduce_common_trees, reduce_common_paths")])

prop("C37", "RADS components are named, listed and ordered consistently",
 "A RADS component text with an s: or p: prefix, or without one (names ending in _sln are then solutions, other names projects), names that solution or project, with '=' and a version that version of it, and with '=' alone its newest version; patch= and a version asks for that patch, or the latest one; other texts are rejected. The projects and solutions listed for a storage are exactly those stored there, and the versions of a project or solution are those listed by the server (or those stored), newest first. Objects for the same name and version are equal and hash alike, and sort by name and then from the newest version; downloading a project or solution downloads every version of it.",
 ["inputs", "histories"], "All component texts, all sets of projects and solutions on the server and in the storage, all pairs of projects, solutions and their versions.",
 "The tests compare four version numbers; no test parses a component or lists a storage.",
 ["cdtb/rads.py"],
 [("component texts", "cdtb/rads.py:parse_rads_component"), ("listings", "cdtb/rads.py:RadsStorage.list_projects, list_solutions, RadsSolution.versions, RadsProject.versions"), ("order", "cdtb/rads.py:__eq__, __lt__, __hash__ of projects, solutions and versions")])

prop("C38", "Guessing at a terminal can be watched and interrupted",
 "While a hash guessing method tries its candidates at a terminal, an interrupt (Ctrl-C) shows its progress and the method goes on to the same result as without it; a second interrupt within half a second stops it with the usual interrupt error. Paths found before stopping stay found, none is lost or wrong, and when the method ends in any way the previous handling of interrupts is in effect again. Without a terminal, interrupts are not intercepted.",
 ["schedules", "inputs"], "All moments of one or more interrupts during every guessing method, all hash lists.",
 "The moment of an interrupt is a schedule; no test sends a signal or has a terminal.",
 ["cdtb/hashes.py"],
 [("interrupt handling", "cdtb/hashes.py:sigint_callback"), ("progress", "cdtb/hashes.py:progress_iterate, progress_iterator")])

prop("C39", "Text dumps of BIN files show everything they hold",
 "The text dump of a well-formed BIN file, plain or patch, of any age shows the linked files, every entry with its path and type, every patched object and path, and every field with its name, type and value at every nesting depth, in file order and nothing else: known hashes by their name, others in braces; container types with their element types; null structures and empty options as such.",
 ["inputs", "configurations"], "All value trees over all value types, container element types and nesting, all ages and versions, hash lists knowing any subset of names.",
 "No test dumps a BIN file.",
 ["cdtb/binfile.py", "cdtb/__main__.py"],
 [("text form of values", "cdtb/binfile.py:format_binvalue and __repr__ of the value classes"), ("dump", "cdtb/binfile.py:BinFile.dump; cdtb/__main__.py:command_bin_dump")])

prop("C40", "A wrong command line is refused before anything is done",
 "A command line that cannot be carried out as written - an unknown command, option, choice or guessing method, a missing argument or file, a file of another kind, options that exclude each other, a malformed or unavailable version or component (also next to valid ones), an unusable storage - ends with an error status or exception, and leaves the storage, the output, the input directories and the hash lists as they were, without fetching any game data. Without arguments the usage is shown; a valid command line is accepted, with the documented default output directories.",
 ["inputs", "configurations"], "All combinations of a command with a mistake of one of these kinds, in any position among valid arguments.",
 "tests/test_cli.py runs three valid export command lines against mocks.",
 ["cdtb/__main__.py", "cdtb/storage.py"],
 [("argument parser and checks of each command", "cdtb/__main__.py:create_parser, main, command_*"), ("resolving all components first", "cdtb/__main__.py:parse_component_args")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
