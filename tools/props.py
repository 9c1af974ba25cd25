import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=list(observe),hook_needed=hook)))
PG="crates/parser/src/"; SY="crates/syntax/src/"; LS="crates/move_language_server/src/"
TESTS8="The existing parser tests compare a handful of fixed .move files with stored trees; "
p("C01","Parsing any text terminates without a crash",
 "Parsing a source text always terminates and yields a syntax tree, whatever the text is: it never panics, aborts, overflows the stack or loops. This also holds for truncated programs, for arbitrary bytes decoded as text, and for very long files.",
 ["inputs","programs"],"Every Unicode text of any length with operator chains of at most 1000 links and nesting of at most 500 levels, where a bracket counts as open for good when its closing bracket is lost in a malformed region (deeper nesting is a recorded finding).",
 TESTS8+"they never feed malformed, truncated or random text, so a single unhandled token sequence is invisible to them.",
 [PG+"lexer.rs",PG+"parser.rs",PG+"marker.rs",PG+"event.rs",PG+"grammar.rs",PG+"grammar/",SY+"parsing.rs",SY+"parsing/text_tree_sink.rs"],
 [("every grammar loop consumes a token or stops",PG+"grammar/"),("total lexing",PG+"lexer.rs find_token"),("step limit against stuck loops",PG+"parser.rs Parser::nth")],
 observe=["SourceFile::parse"])
p("C02","The syntax tree reproduces the source text exactly",
 "The text of the tree obtained by parsing a source text is that text, byte for byte: the leaves are contiguous, cover every byte exactly once and appear in source order, and no leaf is empty. White space and comments lie between nodes: no node but that of the file begins or ends with one. Every reported syntax error lies within the text, at its start or end or between two leaves.",
 ["inputs","programs"],"Every Unicode text (nesting bounded as for parsing), well-formed or not.",
 TESTS8+"stored trees of correct files do not show what error recovery does to arbitrary text.",
 [SY+"parsing/text_tree_sink.rs",SY+"parsing.rs",SY+"lib.rs",SY+"syntax_node.rs",PG+"event.rs",PG+"lexer.rs"],
 [("trivia attachment and token replay",SY+"parsing/text_tree_sink.rs TextTreeSink"),("forward parents resolved into nested nodes",PG+"event.rs process")],
 observe=["Parse::tree","Parse::errors","SyntaxNode::text"])
p("C03","Text is split into the tokens the Move lexical grammar defines",
 "A source text is cut into the longest-match tokens of the lexical grammar (keywords, identifiers, decimal and hexadecimal integers with optional type suffix, byte strings, comments to the end of the line, white space, and the listed punctuation), and each token has the kind the grammar gives it. Characters and byte strings the grammar does not know become error tokens, and lexing goes on after them.",
 ["inputs"],"Every Unicode text, in particular tokens placed next to each other without separators and truncated tokens. The suffix of a hexadecimal number without digits is out of scope.",
 TESTS8+"they contain each token in one or two contexts only, and lexing errors come from neighbouring characters.",
 [PG+"lexer.rs",PG+"syntax_kind.rs",PG+"syntax_kind/generated.rs"],
 [("longest match per first character",PG+"lexer.rs find_token"),("keyword table",PG+"syntax_kind/generated.rs SyntaxKind::from_keyword")],
 observe=["leaves of SourceFile::parse(text)"])
p("C04","Well-formed programs parse without errors into the intended structure",
 "A program of the supported grammar (scripts, modules and address blocks with structs, generic parameters, functions, let statements with patterns, and expressions) parses without any syntax error. The tree nests definitions, fields, parameters, types, patterns, statements and expressions as written, and binary operators group by their precedence, equal precedence to the left.",
 ["programs"],"All programs of the supported grammar, with bounded nesting, laid out with any white space and line comments.",
 TESTS8+"a grammar has unboundedly many combinations of constructs, and precedence only shows in combinations.",
 [PG+"grammar.rs",PG+"grammar/expressions.rs",PG+"grammar/expressions/atom.rs",PG+"grammar/items.rs",PG+"grammar/items/adt.rs",PG+"grammar/params.rs",PG+"grammar/paths.rs",PG+"grammar/patterns.rs",PG+"grammar/types.rs",PG+"grammar/generic_params.rs",PG+"marker.rs",PG+"event.rs"],
 [("recursive descent with one function per construct",PG+"grammar/"),("binding powers",PG+"grammar/expressions.rs current_op"),("preceding nodes",PG+"marker.rs CompletedMarker::precede")],
 observe=["Parse::errors","tree shape and node kinds"])
p("C05","White space and comments never change how a program is parsed",
 "Two source texts with the same sequence of significant tokens parse to trees that differ only in white space and comment leaves, and report the same error messages in the same order. So reformatting a file or adding line comments between tokens never adds, removes or alters diagnostics.",
 ["inputs","programs"],"Every text, well-formed or not, and every way to insert, remove or replace white space and line comments between its tokens as long as the tokens stay the same.",
 TESTS8+"one layout per program; look-ahead over comments needs particular combinations.",
 [PG+"lexer.rs",PG+"parser.rs",SY+"parsing/text_tree_sink.rs"],
 [("trivia skipped when advancing and when looking ahead",PG+"lexer.rs Lexer::bump, lookahead"),("trivia attached by the tree builder",SY+"parsing/text_tree_sink.rs")],
 observe=["Parse::tree","Parse::errors"])
p("C06","Malformed programs are reported, and what precedes the mistake is kept",
 "A program with a syntax mistake from the catalogue (a missing or extra bracket, name, type annotation, separator, operand or keyword, or a stray token) yields at least one error, none of them before the end of the last token that precedes the mistake. Every top-level definition that ends before the mistake is parsed exactly as it is in the correct program.",
 ["programs"],"All pairs of a well-formed program of the supported grammar and one mistake of the catalogue at any applicable place.",
 "Two stored error files exist; whether an arbitrary mistake goes unnoticed cannot be read off two examples.",
 [PG+"parser.rs",PG+"grammar.rs",PG+"grammar/"],
 [("expect / err_recover / error_and_skip_until",PG+"parser.rs"),("recovery sets",PG+"grammar/items.rs")],
 observe=["Parse::errors","definitions before the mistake"])
p("C07","The typed syntax tree is a faithful view of the untyped one",
 "Converting a node or token to a typed wrapper succeeds exactly when its kind is the one the wrapper stands for, and keeps the same node and text. Typed accessors return exactly the children of the requested kind, in source order: all scripts of a file, the expression and the semicolon of an expression statement, the operator token of a binary expression and the value token of a literal.",
 ["programs"],"All trees of generated programs, well-formed or broken; the right operand of a binary expression is a recorded finding.",
 "No existing test uses the typed layer; only its generation from the grammar file is checked for being up to date.",
 [SY+"ast.rs",SY+"ast/nodes.rs",SY+"ast/tokens.rs",SY+"syntax_node.rs",SY+"lib.rs"],
 [("generated casts and accessors",SY+"ast/nodes.rs, tokens.rs"),("child lookup helpers",SY+"ast.rs support")],
 observe=["AstNode::cast","AstToken::cast","typed accessors"])
p("C08","Line and column conversion agrees with the text and round-trips",
 "For every position in a text, the reported line is the number of newlines before it and the column is its distance from the line start, in bytes or in UTF-16 code units as asked; converting back gives the same position. Splitting a range into lines yields consecutive non-empty pieces that cover the range, each within one line.",
 ["inputs"],"Every Unicode text with '\\n' line ends, every character boundary in it and every pair of boundaries.",
 "The existing tests use short literal strings with at most a few non-ASCII characters; the arithmetic depends on every earlier wide character of the line.",
 ["crates/ide_db/src/line_index.rs"],
 [("newline table and wide-character table","crates/ide_db/src/line_index.rs LineIndex::new"),("column conversion","utf8_to_utf16_col, utf16_to_utf8_col")],
 observe=["LineIndex::line_col/offset/to_utf16/to_utf8/lines"])
p("C09","Published positions are in the negotiated encoding and denote the error",
 "The range of every diagnostic the server publishes denotes exactly the place of the syntax error in the document the client holds, counted in lines and in the column unit negotiated at start-up: UTF-8 bytes if the client offers that, UTF-16 code units otherwise. This holds also for lines with characters of any width and for documents with CRLF line ends.",
 ["inputs","configurations"],"Every document with LF or CRLF line ends (also mixed) and any Unicode content, for clients that offer UTF-8, UTF-16 or nothing.",
 "No existing test publishes a diagnostic or negotiates an encoding.",
 [LS+"to_proto.rs",LS+"handlers.rs",LS+"line_index.rs",LS+"config.rs",LS+"lsp_ext.rs",LS+"global_state.rs"],
 [("position conversion",LS+"to_proto.rs position"),("encoding negotiation",LS+"config.rs offset_encoding, lsp_ext.rs supports_utf8")],
 observe=["textDocument/publishDiagnostics"],hook="step-wise server driver")
p("C10","Editing messages leave the server with exactly the client's text",
 "After any sequence of open, change, close and reopen notifications for any number of documents, the text the server analyses for an open document is the one the client has, with full-text and ranged changes applied one after the other in the order given, ranges being read in the negotiated column unit. A position past the end of the text is the end of the text, and no change to one document alters another.",
 ["histories","inputs"],"Every history of document notifications a client may send with any Unicode texts and any number of changes per notification; the position of a ranged change lies in the text or past its end, start not after end and not inside a character.",
 "One existing test applies a few hand-written edits in ASCII order to one string; multi-change notifications, wide characters and several documents are not combined.",
 [LS+"lsp_utils.rs",LS+"main_loop.rs",LS+"from_proto.rs",LS+"mem_docs.rs","crates/vfs/src/lib.rs"],
 [("sequential application with a lazily rebuilt line index",LS+"lsp_utils.rs apply_document_changes"),("notification handlers",LS+"main_loop.rs on_notification")],
 state=[("file contents","current text per document","crates/vfs/src/lib.rs Vfs"),("open documents","set and version of open documents",LS+"mem_docs.rs MemDocs")],
 observe=["server's document text","published diagnostics"],hook="step-wise server driver")
p("C11","Line-end normalisation only removes the CR of CRLF",
 "Normalising a text replaces every CRLF by LF and changes nothing else: lone CRs and all other characters stay, in order. The text is reported as having DOS line ends if it contained a CR and Unix line ends otherwise, and normalising twice is the same as once when no CR precedes a CRLF.",
 ["inputs"],"Every Unicode text, including CRs and LFs in any arrangement.",
 "No existing test covers the in-place buffer surgery, which depends on positions and counts of CRLF pairs.",
 [LS+"line_index.rs",LS+"global_state.rs"],[("in-place gap removal",LS+"line_index.rs LineEndings::normalize")],
 observe=["normalised text and line-end kind"],hook="re-export of the normalisation")
p("C12","The virtual file system behaves like a map with an exact change log",
 "After any sequence of updates the virtual file system holds for each path the last contents given, identifies a path by one id forever and lists exactly the files that exist. An update reports a change exactly when the contents differ from before; the drained log holds one entry per effective update, in order and with the right kind (created, modified, deleted), and draining empties it.",
 ["histories"],"Every sequence of set, delete, drain and query operations over any paths (real and virtual) and contents.",
 "The only tests that touch it build a file system of three or four files and never change or delete one.",
 ["crates/vfs/src/lib.rs","crates/vfs/src/path_interner.rs"],
 [("path interning","crates/vfs/src/path_interner.rs"),("change classification","crates/vfs/src/lib.rs set_file_contents")],
 state=[("file table and pending changes","","crates/vfs/src/lib.rs Vfs")],observe=["Vfs queries","take_changes"])
p("C13","Every file belongs to exactly one source root, the most specific one",
 "Partitioning the files by a set of source roots puts each existing file into exactly one group: that of the root that contains it with the longest path, where a root contains the paths equal to it or below it; files outside all roots form the last group. Within a group, path to id, id to path and relative look-up from another file agree with the file system.",
 ["configurations","inputs"],"Every set of roots, nested, overlapping or similarly named, and every set of real and virtual paths. A relative look-up uses a relative path whose leading '..' and '.' steps come first.",
 "The existing tests use two or three fixed roots and check only group sizes.",
 ["crates/vfs/src/file_set.rs","crates/vfs/src/vfs_path.rs","crates/vfs/src/anchored_path.rs",LS+"reload.rs"],
 [("longest prefix by automaton over encoded paths","crates/vfs/src/file_set.rs FileSetConfig::classify, PrefixOf"),("anchored look-up","crates/vfs/src/file_set.rs FileSet::resolve_path")],
 observe=["FileSetConfig::partition","FileSet queries","SourceRootConfig"])
p("C14","Path operations agree with the meaning of paths",
 "Normalising an absolute path gives the path with '.', '..' and repeated or trailing separators resolved textually, is idempotent, and paths with the same normal form are the same file to the server. Joining, parent, prefix tests, stripping a prefix, and splitting a name into stem and extension agree with the list of components for real and for virtual paths.",
 ["inputs"],"Every absolute path and relative path built from ordinary components, '.', '..', dots, spaces, non-ASCII characters and repeated separators. Virtual paths are in normal form.",
 "A doc example and a few fixed extension cases; laws over arbitrary component lists are not tested.",
 ["crates/paths/src/lib.rs","crates/vfs/src/vfs_path.rs"],
 [("component-wise normalisation","crates/paths/src/lib.rs normalize_path"),("virtual path string operations","crates/vfs/src/vfs_path.rs VirtualPath")],
 observe=["AbsPath/AbsPathBuf/RelPath methods","VfsPath methods"])
p("C15","File selection follows the include, exclude and extension rules",
 "A file is selected exactly if it has one of the listed extensions, lies under an included path, and the longest included path containing it is longer than every excluded path containing it; a directory likewise but for the extension. Explicit file lists select exactly the listed files and no directory.",
 ["configurations","inputs"],"Every choice of extensions, included and excluded paths (nested, equal, disjoint) and every absolute path.",
 "The loader has no test beyond object safety.",
 ["crates/vfs/src/loader.rs"],[("include/exclude resolution","crates/vfs/src/loader.rs Directories::includes_path")],
 observe=["Entry::contains_file/contains_dir"])
p("C16","Diagnostics come back under the URI of the document they belong to",
 "Whatever the path of an opened document, the server publishes its diagnostics under a URI that denotes the same path, and two documents share diagnostics only if their URIs denote the same path. Documents whose URI does not denote a file are ignored without disturbing the others.",
 ["inputs","histories"],"Every file URI a client may send, with non-ASCII, percent-encoded and special characters, '.' and '..' steps, mixed with non-file URIs.",
 "No existing test opens a document by URI.",
 [LS+"from_proto.rs",LS+"to_proto.rs",LS+"global_state.rs","crates/vfs/src/vfs_path.rs","crates/paths/src/lib.rs"],
 [("URI to path",LS+"from_proto.rs abs_path, vfs_path"),("path to URI",LS+"to_proto.rs url_from_abs_path")],
 observe=["textDocument/publishDiagnostics"],hook="step-wise server driver")
p("C17","Incremental analysis gives the same answers as a fresh start",
 "After any history of changes, every query about a file (syntax tree, errors, line table, diagnostics, text, source root) answers as if the current contents had been loaded into a fresh database. The answers never depend on earlier contents, on which queries were asked before, on how changes were grouped, or on cache evictions.",
 ["histories"],"Every sequence of change batches (file contents, removals, source-root reorganisation between workspace and library), queries, snapshots and cache-size changes over any number of files.",
 "No existing test applies a second change to a database.",
 ["crates/base_db/src/change.rs","crates/base_db/src/lib.rs","crates/base_db/src/input.rs","crates/ide_db/src/lib.rs","crates/ide_db/src/apply_change.rs","crates/ide/src/lib.rs"],
 [("input setting with durabilities","crates/base_db/src/change.rs Change::apply"),("memoised queries","crates/base_db/src/lib.rs, crates/ide_db/src/lib.rs")],
 observe=["Analysis queries","SourceDatabase queries"])
p("C18","A snapshot never mixes old and new text",
 "A query on a snapshot either answers for exactly the state at which the snapshot was taken or reports that it was cancelled, however the query overlaps with changes made on other threads. Applying a change always completes once the outstanding queries have returned, and queries on snapshots taken afterwards see the change.",
 ["schedules","histories"],"Every interleaving of change application with queries on snapshots held by other threads, over any number of files and snapshots.",
 "No existing test uses two threads or holds a snapshot across a change.",
 ["crates/ide/src/lib.rs","crates/ide_db/src/apply_change.rs","crates/ide_db/src/lib.rs"],
 [("cancellation caught at the API boundary","crates/ide/src/lib.rs Analysis::with_db"),("cancellation request before a change","crates/ide_db/src/apply_change.rs")],
 observe=["Analysis::diagnostics","Analysis::file_line_index"])
p("C19","Diagnostics are the syntax errors, in order, and nothing else",
 "The diagnostics of a file are its syntax errors, in the order reported by the parser, cut off after the first 128, each with the error's message and range and the severity and code of a syntax error. A file without syntax errors has no diagnostics.",
 ["inputs","programs"],"Every text, in particular texts with 0, 1, 127 to 130 and many more errors.",
 "No existing test computes diagnostics.",
 ["crates/ide_diagnostics/src/lib.rs","crates/ide/src/lib.rs",LS+"handlers.rs",LS+"to_proto.rs"],
 [("conversion of parse errors","crates/ide_diagnostics/src/lib.rs diagnostics"),("conversion to protocol diagnostics",LS+"handlers.rs publish_diagnostics")],
 observe=["Analysis::diagnostics","textDocument/publishDiagnostics"],hook="step-wise server driver")
p("C20","Every request gets exactly one response, with the right outcome",
 "The server answers every request exactly once under the request's id: shutdown succeeds, an unknown method gets 'method not found', parameters that do not fit get 'invalid params', and any request after shutdown gets 'invalid request'. A cancellation for a request that is no longer pending has no effect, and notifications are never answered.",
 ["histories","schedules"],"Every sequence of requests (number and string ids, any method and parameters), notifications, cancellations and client responses to server requests that a client may send.",
 "No existing test sends a request.",
 [LS+"dispatch.rs",LS+"main_loop.rs",LS+"global_state.rs"],
 [("dispatch with fallback",LS+"dispatch.rs RequestDispatcher"),("request registry",LS+"global_state.rs register_request, respond, cancel")],
 state=[("shutdown flag","set by the shutdown request",LS+"global_state.rs GlobalState")],observe=["responses on the wire"],hook="step-wise server driver")
p("C21","Published diagnostics belong to the published version and end up current",
 "Every publication for an open document carries the diagnostics of exactly the text that the document has at the version stated in it, in whatever order background results arrive. Once the server is idle, the last publication for each open document lists the errors of its current text (none published counts as no errors), and nothing is published twice in a row unchanged.",
 ["histories","schedules"],"Every history of document notifications and every order and delay in which the background computations run and their results are delivered between client messages.",
 "No existing test runs the server loop; stale results need a particular delivery order.",
 [LS+"main_loop.rs",LS+"global_state.rs",LS+"diagnostics.rs",LS+"thread_pool.rs",LS+"handlers.rs",LS+"mem_docs.rs"],
 [("recomputation after every change",LS+"main_loop.rs update_diagnostics"),("publication of changed files",LS+"main_loop.rs handle_event"),("superseded results dropped",LS+"main_loop.rs handle_event")],
 state=[("current diagnostics per file","",LS+"diagnostics.rs DiagnosticCollection")],observe=["textDocument/publishDiagnostics"],hook="step-wise server driver that owns the delivery order")
p("C22","A conforming client session never kills the server, and it ends cleanly",
 "A client that follows the protocol can send any sequence of messages without the server stopping; after shutdown and exit it stops without error, and if the stream ends without exit it reports an error. At start-up it answers initialize exactly once with its capabilities and the chosen encoding, registers for save notifications exactly if the client supports it, and after that serves until exit; with nothing to do it rests.",
 ["histories","configurations","fault_sequences"],"Every conforming session (any client capabilities, workspace folders with or without a project, unknown notifications, closed streams) over the in-process connection and over standard input and output.",
 "No existing test starts the server.",
 [LS+"main_loop.rs",LS+"bin/move_language_server.rs",LS+"config.rs",LS+"caps.rs",LS+"lsp_ext.rs",LS+"dispatch.rs",LS+"reload.rs"],
 [("start-up handshake",LS+"bin/move_language_server.rs run_server"),("event loop",LS+"main_loop.rs run")],
 observe=["process exit status","messages on the wire"])
p("C23","The diagnostics store keeps the latest sets and reports exactly the changes",
 "For each file the store returns the last native set given followed by the distinct checker diagnostics added since the last clear, with their fixes kept as long as they are. A file is reported as changed exactly if since the last report its native set was replaced by a different one, a new checker diagnostic was added, or existing checker diagnostics were cleared.",
 ["histories"],"Every sequence of setting native diagnostics, adding checker diagnostics with fixes, clearing and draining changes, over any files.",
 "The store has no test.",
 [LS+"diagnostics.rs"],[("equality check before replacing",LS+"diagnostics.rs set_native_diagnostics"),("duplicate check",LS+"diagnostics.rs add_check_diagnostic")],
 state=[("native and checker sets, pending changes","",LS+"diagnostics.rs")],observe=["diagnostics_for","take_changes"],hook="re-export of the store")
p("C24","Edits are called disjoint exactly when no two of them overlap",
 "The edits of a completion (its own edit, its attached additional edits and further additional edits) are accepted exactly if no two of their ranges overlap, where touching at an end point is allowed. An insert-and-replace edit counts with its replace range and is rejected unless the insert range is a prefix of it.",
 ["inputs"],"Every completion item and every list of additional edits whose ranges have start not after end, in any order. Two edits of which one is empty and lies at the start of the other count as touching.",
 "Three tests with three fixed ranges.",
 [LS+"lsp_utils.rs"],[("sort and compare neighbours",LS+"lsp_utils.rs all_edits_are_disjoint")],observe=["accepted or rejected"],hook="re-export of the check")
p("C25","Project discovery finds exactly the manifests the rules name",
 "For a folder, discovery finds the manifest in the nearest of the folder itself and its ancestors, and only if there is none, the manifests in its direct subfolders; for several folders it gives each manifest found once, in sorted order, skipping folders that cannot be read. Single discovery succeeds exactly if there is exactly one, and a manifest path is accepted exactly if its file name is that of the manifest.",
 ["configurations","fault_sequences"],"Every directory tree with manifests at any depth, missing folders, and any list of workspace folders.",
 "No existing test touches the file system.",
 ["crates/project_model/src/lib.rs","crates/project_model/src/manifest_path.rs"],
 [("upward then one-level-down search","crates/project_model/src/lib.rs discover")],observe=["ProjectManifest::discover, discover_single, discover_all, from_manifest_file"])
p("C26","A manifest loads to exactly the values it states",
 "Loading a project manifest succeeds exactly if the file is readable, valid TOML, and has a package table whose known entries are strings; each known entry then has the value the file states, absent entries are absent, and unknown entries are ignored. A failure is reported as an error naming the file and never takes the process down.",
 ["inputs","fault_sequences"],"Every manifest, with any strings in any TOML notation, any order and any unknown keys or tables, and broken, non-UTF-8 or missing files.",
 "One fixed manifest with four plain strings is tested.",
 ["crates/project_model/src/workspace.rs","crates/project_model/src/dove_toml.rs"],
 [("deserialisation","crates/project_model/src/dove_toml.rs DoveToml"),("loading with context","crates/project_model/src/workspace.rs ProjectWorkspace::load")],
 observe=["ProjectWorkspace::load"],hook="read access to the loaded manifest")
p("C27","Output of a child process is captured whole and streamed by line, in order",
 "Running a command returns its exit status and exactly the bytes it wrote to standard output and standard error, without deadlock however much it writes and however the two streams alternate. The line callbacks receive each stream's lines once, in order and unbroken, without line ends, a last unterminated line included, each complete line while the process still runs. The process finds its standard input empty.",
 ["inputs","schedules"],"Every pair of output streams, of sizes around and above pipe capacity, split into writes at any point, with any interleaving, invalid UTF-8 and either stream closed early.",
 "The helper has no test; deadlocks and split lines need particular write patterns.",
 ["crates/stdx/src/process.rs"],[("polling both pipes","crates/stdx/src/process.rs read2"),("draining up to the last newline","crates/stdx/src/process.rs streaming_output")],
 observe=["returned Output","line callbacks"])
p("C28","Test-fixture markup is extracted to the ranges it marks",
 "Extracting cursor markers, tags and annotations from a marked-up text yields the text without the markers and the offsets, ranges and contents they marked; inserting a cursor marker and extracting it gives back the text and the offset. Removing the common indentation of a text keeps every line's relative indentation.",
 ["inputs"],"Every text that does not itself contain the markup, with markers, tags or annotations inserted at any places. For annotations, ASCII text; indentation by spaces.",
 "A few fixed strings are tested.",
 ["crates/test_utils/src/lib.rs","crates/test_utils/src/fixture.rs","crates/stdx/src/lib.rs"],
 [("marker extraction","crates/test_utils/src/lib.rs"),("indent removal","crates/stdx/src/lib.rs trim_indent")],
 observe=["extract_offset, extract_range, extract_tags, extract_annotations, add_cursor, trim_indent"])
p("C29","Background work is delivered exactly once and joined on shutdown",
 "Every task given to the background pool runs exactly once and its result is delivered exactly once, whatever the number of tasks and threads. Dropping the pool waits until all tasks have been run and delivered.",
 ["schedules","histories"],"Every number and mix of tasks (plain ones and ones that send any number of results), with any running times.",
 "The pool has no test.",
 [LS+"thread_pool.rs"],[("send the result after running",LS+"thread_pool.rs spawn"),("join on drop",LS+"thread_pool.rs Drop")],observe=["received results"],hook="re-export of the pool")
p("C30","Token sets and token-name tables are exact",
 "A token set contains exactly the kinds it was built from, and a union exactly those of its parts, for all token kinds. The tables from keyword text and punctuation character to kind, the classifications (keyword, punctuation, literal, trivia) and the numeric encoding of kinds agree with each other and with what the lexer produces.",
 ["inputs"],"All token kinds and any lists of them, all identifier-like strings and all characters.",
 "One test with a single one-element set.",
 [PG+"token_set.rs",PG+"syntax_kind.rs",PG+"syntax_kind/generated.rs"],
 [("bit set",PG+"token_set.rs TokenSet"),("generated tables",PG+"syntax_kind/generated.rs")],observe=["TokenSet::contains/union","SyntaxKind conversions"])
p("C31","General helper functions meet their contracts on all inputs",
 "Case conversion, character replacement, equal-range search in a sorted slice, pairwise comparison of sequences and deferred actions behave as documented: pascal and snake case keep all letters and insert or drop only underscores, the equal range is exactly the run of equal elements, sequences compare equal exactly if they have the same length and all pairs match, a deferred action runs exactly once, at the end of its scope, even when the scope is left by a panic, and a guarded child process is ended and waited for when its guard is dropped.",
 ["inputs"],"All strings, all slices sorted by the key, all pairs of sequences, all scopes.",
 "Only indentation removal is tested.",
 ["crates/stdx/src/lib.rs"],[("helpers","crates/stdx/src/lib.rs")],observe=["to_pascal_case, to_*_snake_case, replace, equal_range_by, iter_eq_by, defer, JodChild"])
EX="editors/code/src/"
NOTS="The editor extension has no tests at all."
p("C32","The language server gets exactly what Dove reports for the project",
 "When the VS Code extension starts a language server for a project, it passes on exactly what `dove metadata`, run in the project's folder, reports: the dialect, the account address as sender, and as module folders the local dependencies, then the local paths of the git dependencies, then the project's own modules directory, each in the reported order, and no standard library folder. This does not depend on the pieces in which the output of the program arrives, on the layout of the JSON or on the characters in it. If Dove reports nothing, cannot be started or its folder is missing, no server is started, no exception is left uncaught, and the user is shown an error with what Dove wrote to standard error.",
 ["inputs","schedules","fault_sequences"],"All metadata (any texts in its fields), all divisions of the output of Dove into pieces and interleavings of its two output streams.",
 NOTS,
 [EX+"components/dove.ts",EX+"components/client.ts",EX+"components/ws.ts"],[("collects the output",EX+"components/dove.ts runCommand"),("order of module folders",EX+"components/dove.ts getServerInitOptsFromMetadata")],observe=["initializationOptions of the language client","messages shown"])
p("C33","A download is either complete or not there",
 "While the extension downloads an executable, its destination holds either nothing or the whole file, at every moment and with the permission to execute it; whatever fails (the status of the response, the connection, the connection in the middle of the file, or the storage) leaves nothing there. After a failure the user is asked; if he retries, the same request is repeated, and if he gives up, the download fails and nothing else is requested. After a success the file has exactly the bytes that were sent. The progress that is shown only grows and adds up to the whole at the end. This also holds for two windows that download the same file at the same time.",
 ["inputs","fault_sequences","schedules","crash_points"],"All non-empty files and divisions into pieces, all failing requests that are noticed (a failing status, a failing connection), all answers.",
 NOTS,
 [EX+"components/net.ts",EX+"components/bootstrap.ts"],[("temporary file, then rename",EX+"components/net.ts download"),("ask and retry",EX+"components/net.ts downloadWithRetryDialog")],observe=["the destination file","requests","dialogs","progress reports"])
p("C34","The right executables are found or fetched",
 "For Dove and for the language server, the extension uses the path that is configured, with a leading `~/` standing for the home directory; otherwise the asset of the pinned release whose name starts with the name of the program and names the user's operating system, which is downloaded to the extension's storage unless it is there already. Nothing is requested if both paths are configured. Where there is no executable for the system, the download is given up, or Dove cannot be executed, it fails with an error; if the extension is just being activated, the user is shown it. The stored access token, and only that, is sent with requests for the release, and with no others; it changes exactly as the user enters it (an empty one removes it, leaving the box keeps it).",
 ["inputs","configurations","fault_sequences","histories"],"All configurations, platforms, orders and naming styles of the assets of a release with at most one asset for each program and system, all failing requests and answers.",
 NOTS,
 [EX+"components/bootstrap.ts",EX+"components/net.ts",EX+"components/persistent_state.ts",EX+"components/settings.ts"],[("configured path or asset",EX+"components/bootstrap.ts getBinaryPathEnsureExists"),("authorization",EX+"components/net.ts fetchRelease")],observe=["bootstrap","requests","stored token"])
p("C35","One language server per project folder, and none after disposal",
 "However file checks, program outputs and dialogs interleave, at most one language server runs for a workspace folder at any time. One is started exactly for the folders with a Dove.toml that Dove accepts in which a local Move document or manifest has been active (the innermost folder counts); it runs in that folder with the configured program, is given the Move documents of the folder and no others, and goes with tasks `dove build` and `dove test` for the folder. Once the extension has been disposed of, every server has been told to stop, no task is offered any more, and none is started later, whatever was under way.",
 ["schedules","histories"],"All histories of active documents in any folders (nested ones too), all orders in which pending operations end, disposal at any point; folder names without glob characters.",
 NOTS,
 [EX+"components/ws.ts",EX+"components/tasks.ts",EX+"components/client.ts",EX+"components/util.ts"],[("map from folder to workspace",EX+"components/ws.ts ClientWorkspaceFactory.initClientWorkspace"),("stop flag",EX+"components/ws.ts ClientWorkspace")],observe=["language clients started and stopped","task providers"])
p("C36","The extension follows changes of manifests and settings",
 "After any history of edited, created and deleted manifests (Dove.toml), changed settings of the extension, active documents and `move.reload` commands has come to rest: `move.reload` is registered, exactly once, and the extension listens to each event as often as at first and has left no output channel of a stopped server open; every running server was started with the current settings and, if the manifest of its folder is valid, with its current metadata; and the project of the active Move document has a running server if its manifest is valid. A manifest that is changed and valid, a changed setting and the command reload the extension: all servers stop and only the project of the active document is started again. An invalid manifest is reported with what Dove says and leaves running servers alone. Other events start or stop nothing else.",
 ["histories","schedules"],"All histories over up to two project folders, events also arriving in the middle of what earlier ones set off, if both executables are found.",
 NOTS,
 [EX+"extension.ts",EX+"components/ws.ts"],[("dispose everything, activate again",EX+"extension.ts move.reload"),("manifest changes",EX+"extension.ts onDidDoveTomlChanged")],observe=["running language clients and their options","registered commands and listeners","messages"])
p("C37","Every part of a program is highlighted as what it is",
 "In the editor, every comment of a Move program, and nothing else, is highlighted as a comment, wherever between two tokens it stands and whatever it contains. Keywords that introduce items, control keywords, defined and called names, primitive types, numbers, booleans and byte strings are highlighted as such; a byte string ends at its closing quote; names that contain keywords or literals, and texts in strings and comments that look like code, are not taken for these. After the end of each item the highlighting is as at the beginning of a file, so no item changes how those after it are shown.",
 ["inputs","programs"],"All well-formed programs of modules, scripts, address blocks, structs, functions, constants, imports and simple specs, in ASCII outside comments, with white space and comments anywhere between tokens, except that a called name is on one line with its parenthesis and `vector` is next to `<`. Arguments of types other than vectors are not judged.",
 "The grammar has no test; its rules interact only in whole programs.",
 ["editors/code/syntaxes/move.tmLanguage.json","editors/code/package.json"],[("rules","editors/code/syntaxes/move.tmLanguage.json")],observe=["scopes of each character","rules left open after an item"])
p("C38","A panic report names what its thread was doing",
 "The report of a panic, written to standard error before the usual panic message, names the contexts open in the panicking thread at that moment, outermost first, each with its whole text; contexts of other threads, and contexts that have been left (normally or through an earlier panic that was caught), are never named. Without an open context there is only the usual message. This holds however threads enter, leave and panic in turn.",
 ["histories","schedules"],"All programs of 1 to 4 threads that open contexts (any texts, up to 300 deep), close them in reverse order, panic and catch panics, in any order of turns.",
 "No test uses it.",
 ["crates/stdx/src/panic_context.rs"],[("a stack of contexts for each thread","crates/stdx/src/panic_context.rs with_ctx"),("hook that writes it","crates/stdx/src/panic_context.rs PanicContext::init")],observe=["standard error of a child process"])
p("C39","Generated syntax-tree code has what its grammar says",
 "From every grammar the code generator makes one struct for each rule, with an accessor for each token, node, repeated node and list its rule mentions, once, wherever in the rule it stands (in groups, options and alternatives too) and under its label if it has one; and one enum for each rule that only lists nodes, with all of them as variants, their conversions, and casts that take exactly their kinds. Lists with any separator give an accessor for all elements and none for the separator, and a rule that mentions every variant of one enum, each once and without a label, has one accessor for that enum instead. From lists of kinds it makes the kinds in their order, and the tables of keywords, punctuation, literals, characters and the macro `T`, each with exactly its entries. The code comes out as rustfmt formats it.",
 ["inputs","configurations"],"All grammars of up to 8 rules whose accessors have distinct names (none of those reserved for traits), with at most one single and one repeated child of a type in a rule and enums of plain nodes; all lists of kinds with at least one punctuation, keyword and literal.",
 "The only test compares the generator's output for the one grammar of the repository with the committed files; what other grammars (the next change of this one) give is not seen.",
 ["crates/generate_ast/src/ast.rs","crates/generate_ast/src/ast/","crates/generate_ast/src/syntax_kind.rs","crates/generate_ast/src/utils.rs"],
 [("lowering of rules","crates/generate_ast/src/ast.rs lower_rule, lower_comma_list"),("code of nodes and tokens","crates/generate_ast/src/ast/gen_nodes.rs, gen_tokens.rs"),("code of kinds","crates/generate_ast/src/syntax_kind.rs")],
 observe=["the generated code"],hook="runs the generator on a grammar or a list of kinds read from standard input")
p("C40","A mistake in one definition leaves the later ones as they are",
 "When a function's name, parameter list or return type, a struct's field list, or the space between two definitions has one mistake (a missing, extra, doubled or stray token that is no bracket), or a statement lacks a name, a type, an operand or a value right before its semicolon, then every later definition - function, struct, module, script or address block, inside the same module or after it - is parsed exactly as without the mistake, and no error is reported inside one of them. With such mistakes in several top-level definitions (not in the space after one), each has the tree and the errors that it has alone.",
 ["programs"],"All pairs of a well-formed program of the supported grammar and one such mistake, or one in each of several definitions.",
 "The two stored error files have nothing after the mistake; whether parsing goes on in the right place depends on the combination of mistake, place and what follows.",
 [PG+"parser.rs",PG+"grammar.rs",PG+"grammar/"],
 [("recovery sets",PG+"grammar/items.rs ITEM_RECOVERY_SET"),("resuming in lists",PG+"grammar/params.rs, "+PG+"grammar/items/adt.rs")],
 observe=["definitions after the mistake","Parse::errors"])
p("C41","The log goes where the environment says, and holds what it asks for",
 "The server's log goes to the file that RA_LOG_FILE names, made anew with its folders, or without that variable to standard error; standard output carries protocol messages only. An event is logged exactly if the directive of MOVE_LS_LOG that is most specific for its module admits its level, only errors are if nothing valid is set, and invalid directives are skipped. If the log file cannot be made, the server ends with an error before it serves. Requests of unknown methods, unknown notifications (but not optional ones, `$/...`) and documents opened twice, or changed or closed while not open, are logged as errors, proper ones are not, and an error that ends the server is written to standard error in any case.",
 ["configurations","histories"],"Every setting of MOVE_LS_LOG, RA_LOG_FILE and CHALK_DEBUG, and every session. Events that depend on timing (the database's) are held to the levels only.",
 "No existing test starts the server or sets up logging.",
 [LS+"logger.rs",LS+"bin/move_language_server.rs",LS+"dispatch.rs",LS+"main_loop.rs"],
 [("filter and writer",LS+"logger.rs install"),("log file",LS+"bin/move_language_server.rs setup_logging")],
 observe=["log file","standard error","standard output","exit status"])
p("C42","The extension logs what its setting asks for and keeps the token secret",
 "The extension's own log has entries of level DEBUG exactly while `move.trace.extension` is on, as of the last activation or reload (which every change of the setting is), and those of the levels INFO, WARN and ERROR always. Each start logs the executables it uses, or as an error what kept it from starting; each request that is answered with a failing status is logged as an error with its address and status. An error brings the log to the front, and nothing else does. The user's access token, or a part of it, never appears in the log, in a message, in the arguments of a program or in an address, and the box in which it is entered hides it.",
 ["histories","configurations","fault_sequences"],"All histories of changes of the setting, reloads, saved manifests and active documents, with any stored and entered token, failing requests and missing executables.",
 NOTS,
 [EX+"components/util.ts",EX+"components/settings.ts",EX+"components/net.ts",EX+"components/bootstrap.ts",EX+"extension.ts"],[("log",EX+"components/util.ts log"),("setting read at activation",EX+"extension.ts tryActivate")],observe=["entries of the output channel","messages and input boxes","arguments of programs and addresses of requests"])
p("C43","A missing part is asked for where it is missing",
 "If exactly one part of a well-formed program is missing, the first error lies in the gap - not before the end of the token before it, not after the start of the token after it - and its message mentions what belongs there. This holds for the name, parameter list and body of a function, the name and field list of a struct, the name and body of a module, the body of a script, the address and body of an address block; the name or type of a parameter or field, a return type, the type after `&` or of a `let`, the pattern of a `let`; field names after a dot and in records; an element of a list of parameters, type parameters or fields, or of a tuple pattern, that a comma follows; the comma between two such elements; the colon of a parameter or field; the `(` of a parameter list; the `{` of a module, script, address block or struct; the `;` of a struct; and the keywords `fun`, `struct`, `module`, `script`, `address`.",
 ["programs"],"All programs of the supported grammar with one such part taken out, in any layout. A message is judged by whether it mentions the missing thing, not by its wording.",
 "The two stored error files hold two mistakes; where an error is put depends on the tokens, comments and white space around the gap.",
 [PG+"parser.rs",PG+"grammar.rs",PG+"grammar/","crates/syntax/src/parsing/text_tree_sink.rs"],
 [("errors of the grammar",PG+"grammar/params.rs, "+PG+"grammar/items.rs, "+PG+"grammar/items/adt.rs, "+PG+"grammar/types.rs"),("place of an error","crates/syntax/src/parsing/text_tree_sink.rs error")],
 observe=["first of Parse::errors: range and message"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
