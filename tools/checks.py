c("C01","grammar-aware fuzzing: token soups, mutated programs and enumerated token sequences; crash, hang and stack oracle",
  "No generated text makes the parser panic, abort, overflow a 2 MB stack or loop; all sequences of up to two tokens in 16 contexts are covered. Deep nesting is a recorded finding.")
c("C02","property-based testing with a lossless round-trip invariant over generated texts",
  "Leaves, nodes and error ranges are checked against the source text for every generated text.")
c("C03","property-based testing against a reference lexer",
  "Token kinds and boundaries agree with an independent longest-match lexer written from the lexical grammar.")
c("C04","generation of programs together with their expected trees (model-based), plus enumeration of operator combinations",
  "The parsed tree equals the generated one for every generated program of the supported grammar; nesting is bounded.")
c("C05","metamorphic testing: two layouts of the same tokens",
  "Trees without trivia and error messages agree for every generated pair of layouts.")
c("C06","mutation-based testing: generated programs with one catalogued mistake",
  "Each broken program is reported, not before the mistake, and the definitions before it are kept.")
c("C40","mutation-based testing: generated programs with one mistake at a place where parsing resumes",
  "The definitions after the mistake have the trees of the correct program and no error lies in them, for every generated pair of program and mistake; in a third of the cases several definitions have one, and each is parsed as alone.")
c("C43","mutation-based testing: generated programs with one part taken out",
  "For every generated program and part of the named kinds, the first error lies in the gap and mentions what is missing.")
c("C07","property-based testing against a generic walk of the untyped tree",
  "Casts and accessors agree with a direct walk for every node and token of generated trees; BinExpr::rhs is a recorded finding.")
c("C08","property-based testing against a naive reference, with round-trips",
  "Line and column conversion agrees with counting newlines and UTF-16 units by hand for every boundary of every generated text.")
c("C30","exhaustive enumeration over all token kinds plus generated kind lists, strings and characters",
  "All pairs of kinds are covered; identifier-like strings are sampled.")
c("C12","stateful model-based testing against a map with a change log",
  "Histories of updates, drains and queries agree with the model, including ids and the listing.")
c("C13","property-based testing against a naive longest-prefix partition",
  "Partition, look-ups and relative resolution agree with component lists for generated related roots and paths.")
c("C14","property-based testing against paths as component lists",
  "All path operations agree with the reference on generated noisy paths, real and virtual.")
c("C15","property-based testing against the longest-match rule over component lists",
  "Selection agrees with the rule for generated extensions, included and excluded paths.")
c("C17","stateful differential testing: incremental database against a fresh one and direct computation",
  "Every query agrees after every generated history of batches, queries, evictions and cancellations.")
c("C18","concurrent stateful testing with generated pauses; each answer is judged against the state of its snapshot",
  "No generated schedule mixes states, hangs or cancels without a change; schedules are sampled by generated pauses, not enumerated.")
c("C19","property-based testing against the parser's error list, around the cut-off",
  "Diagnostics equal the first 128 errors field by field for generated texts and for 0 to 299 mistakes in a row.")
c("C25","property-based testing on real generated directory trees against the search rules over a set of folders",
  "Discovery agrees with the rules from every folder, missing folder and file of each generated tree, and for lists of them.")
c("C26","generation of manifests from known values (round-trip) with injected faults",
  "Each generated manifest loads to the values it was written from, in all TOML notations; each of seven faults is an error naming the file.")
c("C27","fuzzing of child process behaviour: generated write scripts run by a real child, against the bytes they write",
  "Captured bytes, lines and exit status agree with the script for every generated script; the kernel decides how reads interleave with writes.")
c("C28","round-trip property-based testing: markup put in at known places and extracted again",
  "Every generated marked-up text gives back the text and the places; annotations and indentation are checked within the stated domain.")
c("C31","property-based testing against direct definitions",
  "Each helper agrees with its definition on all generated arguments; guarded children are checked on 64 real processes.")
c("C09","property-based testing of the server step by step against positions counted in the client's text",
  "Every published range equals the one counted by hand in the client's own text, for every generated document and offer of encodings.")
c("C10","stateful model-based testing: a client model applies the same edits to its own texts",
  "After every notification of every generated history the server holds the client's text byte for byte, and the final publications fit it.")
c("C11","property-based testing against a character-by-character reference, with exhaustive enumeration of short texts",
  "All texts of up to 8 characters over CR, LF, an ASCII and a wide character, and random longer ones.")
c("C16","stateful property-based testing with generated URIs, compared as independently decoded paths",
  "Every publication of every generated history belongs, by its decoded URI, to the document whose errors it lists.")
c("C20","stateful model-based testing of request histories",
  "After every step of every generated history each request has exactly one response with the expected outcome, and nothing else is answered.")
c("C21","stateful testing with a generated delivery order of background results against a model of the client's versions",
  "Every publication is judged when it is sent and the last ones at idle; delivery orders are generated, and in a quarter of the cases computations also run freely.")
c("C23","stateful model-based testing",
  "Contents, fixes and reported changes agree with the model after every step of every generated history.")
c("C24","property-based testing against pairwise interval overlap",
  "The verdict equals the pairwise definition for every generated completion on a small grid of positions.")
c("C29","concurrent property-based testing with generated task mixes and running times",
  "Every generated mix is run and delivered exactly once by the time the pool is dropped; schedules are those that arise.")
c("C22","stateful property-based testing of whole client sessions, in process and against the real server process",
  "Every generated session is served to its end as stated; answers that a server process had not yet written when the stream ended without exit are not asked for.")
c("C41","property-based testing of the real server process: generated settings against a rule for levels and a second run that logs everything",
  "Place, levels and completeness of the log agree for every generated setting and session; events that depend on timing are held to the levels only.")
c("C32","property-based testing with fast-check: generated metadata, output pieces and faults against the expected options",
  "The options agree for every generated metadata and division of the output, with a stand-in for child processes and, in part of the cases, a real one.")
c("C33","fault injection with fast-check: generated pieces, failing requests and answers; the destination is watched at every turn",
  "In every generated download the destination was absent or complete at every turn of the event loop; losses that the network library does not report are not covered.")
c("C34","property-based testing with fast-check against the selection rule, with a judge over the log of requests and dialogs",
  "The paths, requests, dialogs and stored token agree with the rules for every generated configuration and release.")
c("C35","stateful property-based testing with fast-check: the case chooses the order in which pending operations end",
  "At most one server per folder after every step of every generated schedule, and exactly the expected ones at rest; orders are generated, not enumerated.")
c("C36","stateful model-based testing with fast-check, sequential and interleaved histories",
  "Sequential histories agree with the model after every event; interleaved ones are judged at rest and after one more reload.")
c("C42","stateful property-based testing with fast-check: histories of the setting, reloads and failing starts, with a search for the token in all that goes out",
  "Levels, errors and secrecy hold for the entries of every generated history; the wording is not judged.")
c("C37","grammar-based property testing with fast-check: programs generated together with the expected class of each token, read by a TextMate engine",
  "Every token and comment of every generated program has the expected scope and no rule stays open after an item; the engine follows the editor's library but is not it.")
c("C38","stateful property-based testing of thread programs with a generated order of turns, run in a child process",
  "Each report of every generated program names exactly the open contexts of its thread, for the generated order of turns.")
c("C39","grammar generation: random grammars and kind lists, with the code they should give written out independently",
  "The items of the generated code equal the expected ones, token for token, for every generated grammar; rules with clashing names and partly covered enums are left out.")
