PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="Matches lie within the text, in order, disjoint; coverage is 0 to 100",
  statement="For every text and every scanner, Scan reports matches whose byte ranges satisfy 0 <= Start <= End <= len(text) (Start < End for a URL), listed in order of position, each beginning no earlier than the one before it ends; the word ranges inside the matcher obey the same; and Percent lies in 0..100.",
  over=["inputs"], quant="every text, every set of compiled licenses",
  why="Tests fix the reported ranges of a few texts; an off-by-one in the copyright, newline, end-of-text or URL adjustments overlaps or overruns only for particular texts.",
  files=["scan.go", "internal/match/regexp.go", "internal/match/dict.go"], mech=[("Scanner.Scan", "scan.go"), ("MultiLRE.Match", "internal/match/regexp.go"), ("Dict.split", "internal/match/dict.go")], observe="Coverage returned by Scan",
  technique="abstract interpretation over SSA: linear inequalities, summaries of sequences and of the compiled automaton, inferred loop invariants",
  note="Every append of a match on every path is an obligation; assumes the compiled automaton decodes as its builder writes it, matches of the constant URL pattern behave as its syntax tree implies, and lengths below 2^31.")

P(id="C02", title="Scan never panics, whatever the text",
  statement="For every sequence of bytes, and every scanner, Scan returns: no index or slice out of range, nil dereference, division by zero, failed conversion, integer overflow into an index or explicit panic is reachable from it (other than the deliberate panic when the built-in license set fails to compile).",
  over=["inputs"], quant="every text, well-formed UTF-8 or not, every set of compiled licenses",
  why="Tests scan a few hundred well-formed texts; out-of-range accesses show only at particular boundaries such as a tag, an entity or a URL cut off by the end of the text.",
  files=["scan.go", "internal/match/regexp.go", "internal/match/dict.go", "internal/match/rematch.go"], mech=[("Scanner.Scan", "scan.go"), ("MultiLRE.Match", "internal/match/regexp.go"), ("Dict.split", "internal/match/dict.go")],
  technique="abstract interpretation over SSA: linear inequalities, summaries of sequences and of the compiled automaton, inferred loop invariants",
  note="Every instruction that can panic in every function Scan reaches is an obligation; same assumptions as C01.")

P(id="C03", title="Scan always terminates",
  statement="For every text and every scanner, Scan returns: every loop it reaches makes progress on every iteration in a quantity that is bounded, and there is no recursion.",
  over=["inputs"], quant="every text, every set of compiled licenses",
  why="A loop that fails to advance hangs only on the text that leads into that path.",
  files=["scan.go", "internal/match/regexp.go", "internal/match/dict.go", "internal/match/rematch.go"], mech=[("loops of Scan", "scan.go"), ("loops of Match", "internal/match/regexp.go"), ("loops of split", "internal/match/dict.go")],
  technique="abstract interpretation over SSA with synthesis of ranking functions",
  note="Every loop reached from Scan is an obligation (library calls are assumed to return); same assumptions as C01.")

P(id="C04", title="Concurrent scans share no mutable state",
  statement="Any number of goroutines may call Scan on the same Scanner (or the package-level Scan) at the same time, and likewise Cover on the same old Checker, without a data race: a scan never writes memory that another scan can reach, and the one-time construction of the built-in scanner happens only under once-only synchronisation.",
  over=["schedules"], quant="every interleaving of any number of concurrent scans on one or several scanners, including the very first calls",
  why="Tests scan from one goroutine; a race needs a particular interleaving, and writes to shared state on rare paths are never exercised concurrently.",
  files=["scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/regexp.go", "old/license.go", "old/normalize.go"],
  mech=[("builtinScannerOnce guards built-in construction", "scan.go"), ("Dict.Split passes insert=false", "internal/match/dict.go"), ("DFA is immutable after compile", "internal/match/rematch.go")],
  technique="context-sensitive points-to and effect analysis over SSA",
  note="Sound for the repository's code on every path from the scan entry points under the recorded summaries of standard-library functions; trusts sync.Once, regexp and the other named library functions to be goroutine-safe.")

P(id="C05", title="Calls neither modify nor alias caller memory or shared tables",
  statement="No exported function or method modifies the memory of the byte slices or license lists passed to it, keeps a reference to a caller's slice after returning, or returns memory that is shared with the package's tables or with a later call's results.",
  over=["inputs", "histories"], quant="every call with every argument, followed by any later mutation of arguments or results by the caller",
  why="Tests never mutate arguments or results between calls, so aliasing stays invisible.",
  files=["scan.go", "license.go", "internal/match/dict.go", "old/license.go"],
  mech=[("BuiltinLicenses copies the table", "scan.go"), ("Scan converts text to a string", "scan.go")],
  technique="points-to and effect analysis over SSA (argument/shared/fresh memory)",
  note="Covers writes, retention and result aliasing over all paths from exported entry points, with summaries for standard-library callees.")

P(id="C06", title="Results depend only on the arguments",
  statement="Calling an exported function with equal arguments always gives equal results: nothing depends on map iteration order, time, randomness, environment, addresses, goroutine scheduling, or on calls made earlier.",
  over=["inputs", "histories", "schedules"], quant="every pair of calls with equal arguments in any process, at any time, in any history",
  why="Tests run each input once or twice in one process; map-order or history dependence shows up only with luck.",
  files=["scan.go", "license.go", "internal/match", "old"],
  mech=[("state written only by once-only initialisation", "scan.go")],
  technique="effect analysis over SSA: nondeterminism sources, order-sensitive map ranges, mutable package state",
  note="Decides the absence of every source of nondeterminism in the reachable code; library functions are classified by a closed list and an unclassified call is reported.")

P(id="C07", title="The library performs no I/O and keeps quiet",
  statement="With debug tracing at its default (off), no exported library function reads or writes files, the network, the environment or standard output or error, starts processes or exits the process.",
  over=["inputs"], quant="every call of every exported function with every argument",
  why="A stray debug print or file access on a rare path is invisible to tests that do not reach the path or capture output.",
  files=["scan.go", "license.go", "internal/match/rematch.go", "old"],
  mech=[("TraceDFA == 0 guards the only prints", "internal/match/rematch.go")],
  technique="effect analysis over SSA with constant propagation of never-assigned package variables",
  note="Complete over reachable repository code; calls that leave the repository must be on a closed list of functions known to do no I/O.")

P(id="C09", title="Scan is equivalent to a Scanner built from BuiltinLicenses",
  statement="Package-level Scan gives exactly the result of NewScanner(BuiltinLicenses()) followed by Scan, from the first call on: no scan ever sees an unconstructed or partly constructed built-in scanner, and a failed construction cannot go unnoticed.",
  over=["histories", "schedules", "inputs"], quant="every text, every order of calls and every interleaving of first calls",
  why="Tests compare the two only through a few texts after initialisation; the guarantee is about every path before first use.",
  files=["scan.go"],
  mech=[("builtinScannerOnce", "scan.go"), ("Scanner.init is the one construction routine", "scan.go")],
  technique="interprocedural must-happen-before and same-construction analysis over SSA",
  note="Decides that every read of built-in scanner state follows the once-only initialiser and that the initialiser is the same routine on the unmodified list; it does not compare two runs.")

P(id="L02", title="Every failure while building a scanner is reported",
  statement="When any step of compiling a license pattern or building a scanner fails, the failure is returned to the caller (or, for the built-in list, panics); it is never dropped, overwritten or turned into success. NewScanner returns either a usable scanner and a nil error, or a nil scanner and an error.",
  over=["inputs", "programs"], quant="every license list, every pattern text, every failing step and every path it can take",
  why="Tests check a handful of malformed patterns; each failing step combined with each position in the list is a different path.",
  files=["scan.go", "internal/match/regexp.go", "internal/match/resyntax.go", "internal/match/rematch.go", "license.go"],
  mech=[("errors returned at each call", "scan.go"), ("reCompile.err reported at end of compile", "internal/match/rematch.go")],
  technique="path-sensitive error-propagation dataflow over SSA",
  note="Decides error propagation over all paths of the library packages; which inputs must fail is not decided here.")

P(id="T01", title="License type bits and their names agree",
  statement="Unknown is zero, every other exported license requirement is one distinct bit, and formatting and parsing use one name per bit, equal to its exported name, with no constant missing, duplicated or swapped. A type is formatted as the names of exactly the bits it has, each once, with a number only for bits that have no name.",
  over=["inputs"], quant="every type value and every bit",
  why="Tests format and parse a few combinations; a swapped or missing name for one bit passes them.",
  files=["license.go"], mech=[("Type constants", "license.go"), ("typeBits", "license.go")],
  technique="constant and table evaluation over the type-checked syntax tree",
  note="Decides the constants and tables exactly, and what String and ParseType make of each constant; combinations are T03's.")

P(id="T02", title="Merge follows its documented rule on every pair of types",
  statement="Merging is Unknown when either side is Unknown; otherwise the result has exactly the strictest of the ordered requirement bits present on either side, plus NonCommercial and Discouraged if on either side, except that Unrestricted is dropped when NonCommercial is set. Undocumented higher bits never survive.",
  over=["inputs"], quant="all pairs of type values, including values with undocumented bits above Discouraged",
  why="The test table samples pairs; the rule is over all 2^64 x 2^64 pairs.",
  files=["license.go"], mech=[("Type.Merge", "license.go")],
  technique="known-bits abstract interpretation over an exhaustive partition of the inputs",
  note="Sound for all pairs: the partitions cover the whole input space and the bits outside the documented ones stay unknown.")

P(id="T03", title="Parsing the text of a license type gives the type back",
  statement="For every value t of Type, ParseType(t.String()) is t with a nil error, undocumented bits included. ParseType of a |-separated list of names and Type(number) parts, in any order and with repeats, is the union of the parts; a part that is neither, an empty part, or a number that does not fit is an error. Each single requirement is written as its name alone.",
  over=["inputs"], quant="every type value; lists of up to three parts; every text outside the names' alphabet as a part",
  why="Tests round-trip a handful of values; a bit lost only in combination, or only above 32 bits, passes them.",
  files=["license.go"], mech=[("Type.String", "license.go"), ("ParseType", "license.go")],
  technique="abstract interpretation over known bits and structured strings, partitioned by documented bits and highest undocumented bit",
  note="The round trip covers all 2^64 values (each undocumented bit is followed on its own for no and for all documented bits, jointly otherwise); lists are decided up to three parts.")

P(id="C11", title="Patterns and texts are split into words by the same rules",
  statement="A license pattern and a scanned text are broken into words identically: the only difference between reading a pattern and reading a text is that unknown words are added to the dictionary for a pattern and marked unknown for a text. No word is looked up, added or compared before its case and accents have been folded.",
  over=["inputs"], quant="every pattern text and every scanned text, including mark-up, entities, punctuation, invalid UTF-8 and special spellings",
  why="Tests compare a few texts against patterns; a difference that needs one special spelling or mark-up form in one of the two roles is not sampled.",
  files=["internal/match/dict.go"], mech=[("Dict.split shared by Split and InsertSplit", "internal/match/dict.go"), ("canonicalRewrites", "internal/match/dict.go")],
  technique="two-run (relational) comparison and backward dataflow over SSA",
  note="Decides that the insert flag influences word identifiers and dictionary growth only, on every path, and that every dictionary key is folded text; which characters form words is not decided here.")

P(id="C12", title="Letter case and grave or acute accents never distinguish words",
  statement="Two words that differ only in letter case, in grave or acute accents on vowels, or in whether those accents are written as combining characters are treated as the same word. Lower-case ASCII letters and digits are never changed or dropped by this folding.",
  over=["inputs"], quant="every character, through all Unicode simple-case classes and all documented accent classes",
  why="Tests fold a handful of characters; there are 1,400 case classes, several with three or four members.",
  files=["internal/match/dict.go"], mech=[("foldRune", "internal/match/dict.go")],
  technique="abstract interpretation over an exhaustive partition (table domain) of the folding function",
  note="Exhaustive over the case classes and documented accent classes; the folding function must stay within the domain (no memory, no dynamic calls).")

P(id="U01", title="Every built-in URL can be recognised and names a built-in license",
  statement="Every entry of the built-in URL table is in the canonical form that lookups use, occurs only once, and names a built-in license; and written with http or https in front it is accepted in full by the pattern that finds URLs in text.",
  over=["configurations"], quant="every entry of the built-in URL table, each with either scheme in either case, with and without a trailing slash",
  why="The table is only sampled by tests: an entry that can never match is silently dead.",
  files=["urls.go", "scan.go", "data.gen.go"], mech=[("builtinURLs", "urls.go"), ("urlScanRE", "scan.go")],
  technique="evaluation of type-checked constant tables and constant patterns",
  note="Decides all table entries; uses the regexp package on the constant pattern and table strings taken from source.")

P(id="U02", title="Every documented spelling of a known license URL is recognised",
  statement="A known license URL is recognised whatever its scheme (http or https), the case of any of its letters, and whether it ends in a slash or in /legalcode, with or without one extra path element for a ported license; and it gives the known URL's license.",
  over=["inputs"], quant="every known URL, every spelling and every combination of the variations",
  why="Tests use one spelling for a few URLs; combinations (upper-case scheme with /legalcode and a slash) are not sampled.",
  files=["scan.go"], mech=[("Scanner.licenseURL", "scan.go")],
  technique="abstract interpretation over structured strings (symbolic key, opaque case-unknown pieces)",
  note="Decides the lookup function for all keys at once on a closed list of spelling shapes; keys are assumed canonical (decided for the built-in table by U01).")

P(id="C08", title="Each match is attributed to the license whose own pattern or URL matched",
  statement="The ID and Type of every match Scan reports are those of one entry of the scanner's license list: for matched text, the entry whose own pattern matched those words; for a URL, the entry listed for the URL found there. No entry's pattern, URL, ID or Type is ever mixed up with another's, whatever the list holds (repeated IDs, entries without a pattern, entries with a different type for a URL). Likewise a match of the older package's Cover names the license whose words or URL matched, with the type of that name.",
  over=["inputs"], quant="every license list and every text",
  why="Tests use the built-in list, where each ID occurs once and all entries with patterns come first; lists with other shapes are not sampled.",
  files=["scan.go", "internal/match/regexp.go", "internal/match/rematch.go", "old/license.go"], mech=[("Scanner.init", "scan.go"), ("reCompileMulti", "internal/match/rematch.go"), ("Checker.submatches", "old/license.go")],
  technique="interprocedural value provenance over SSA access paths, with path enumeration of the list-building loops",
  note="Decides where the ID, Type and extent of each match come from, that patterns and licenses are added in step, and that the position is carried unchanged through program, DFA and match. That the DFA accepts exactly the pattern is not decided (M01).")

P(id="B01", title="BuiltinLicenses lists every built-in license and URL, unaltered and in order",
  statement="The list BuiltinLicenses returns holds every entry of the built-in pattern table, in order and unaltered, followed by one entry for every entry of the built-in URL table, in order, with that entry's ID and URL and the Type of the built-in pattern that has the same ID (Unknown only where no pattern has it). Nothing is left out, repeated, reordered or changed, and every URL entry has the type of its license.",
  over=["configurations"], quant="every entry of the two built-in tables, whatever they hold",
  why="Tests look at the list only through scans of sample texts; an entry dropped, repeated or mistyped shows only for the texts that need it.",
  files=["scan.go"], mech=[("BuiltinLicenses", "scan.go")],
  technique="value provenance and loop-path enumeration over SSA",
  note="Decided for any contents of the two tables. What the tables hold is D01 (patterns) and C08's URL rules; that a list comes out fresh for each caller is C06.")

P(id="D01", title="The built-in license table agrees with the license definition files",
  statement="The built-in patterns are exactly those that the definition files in the licenses directory expand to: each license identifier once, with its declared type and its own pattern, none missing, added or altered; and a license that is a special case of a more general one comes before it.",
  over=["configurations"], quant="every definition file and every built-in pattern",
  why="Tests exercise samples for some licenses; a stale, swapped or dropped entry or type for the rest is not seen.",
  files=["data.gen.go", "licenses", "gen_data.go"], mech=[("builtinLREs", "data.gen.go")],
  technique="evaluation of type-checked tables compared with template expansion of the definition sources",
  note="Decides all entries. The expansion is done by the checker from the definition files; it is not a run of the generator.")

P(id="G02", title="The data generators never hide a failure",
  statement="When any step of the table generator or of the license converters fails (reading, fetching, parsing, formatting or writing), the program ends with a failure status; no failure is dropped or reported as success.",
  over=["inputs", "fault_sequences"], quant="every failing step on every path of the three programs",
  why="The generator programs have no tests at all, and faults cannot be sampled exhaustively.",
  files=["gen_data.go", "licenses/getcc.go", "licenses/getspdx.go"], mech=[("exit status", "gen_data.go")],
  technique="path-sensitive error-propagation dataflow over SSA",
  note="Every call that can fail in the three programs is followed on every path to the exit status.")

P(id="L04", title="Wildcard word counts are used exactly as written or rejected",
  statement="In a pattern, __N__ stands for at most N words with N exactly the decimal number written; a number that cannot be represented is an error. The count is never truncated, wrapped, rounded or replaced on its way from the text into the compiled pattern.",
  over=["inputs"], quant="every pattern and every decimal number in it",
  why="Tests use a few small counts; a conversion that wraps or a copy that loses a count shows only for special numbers.",
  files=["internal/match/resyntax.go", "internal/match/rematch.go"], mech=[("wildcard parsing in reParser", "internal/match/resyntax.go")],
  technique="value-flow and conversion-width analysis over SSA",
  note="Decides the path of the count from parsing to program generation, including every integer conversion on it; that N copies of an any-word instruction mean at most N words is decided at the emitting loop only.")

P(id="M01", title="Reported matches are exactly the leftmost-longest pattern matches",
  statement="The matches found for a set of patterns are those of the leftmost-longest semantics of the pattern language, up to the documented spelling tolerance.",
  over=["inputs"], quant="every pattern set and every text",
  why="Language equivalence cannot be sampled.",
  files=["internal/match/rematch.go", "internal/match/regexp.go"], mech=[("reCompileDFA", "internal/match/rematch.go")],
  technique="-", note="-",
  na="Equivalence between a pattern set and the automaton computed from it at run time quantifies over runtime data structures (and over heuristics such as cuts and misspellings that deliberately deviate); no sound static argument in reach decides it.")

P(id="M02", title="Every license known to SPDX is recognised in its official text",
  statement="Scanning the official text of any SPDX license reports that license.",
  over=["inputs"], quant="every SPDX license text and its usual variations",
  why="The test data covers one sample per license.",
  files=["data.gen.go", "licenses/README.md"], mech=[("builtinLREs", "data.gen.go")],
  technique="-", note="-",
  na="Recognition quality is a property of data and matching heuristics against texts that are not part of the source; D01, U01 and U02 decide what can be decided about the tables.")

P(id="M03", title="Scanning takes time linear in the text",
  statement="The time of a scan is bounded by a constant, depending on the license set only, times the length of the text.",
  over=["inputs"], quant="every text",
  why="Benchmarks measure a few texts.",
  files=["internal/match/regexp.go", "internal/match/rematch.go", "scan.go"], mech=[("MultiLRE.Match", "internal/match/regexp.go")],
  technique="-", note="-",
  na="The bound depends on runtime quantities (how far the automaton runs before failing at each start, spell-check retries, lengths of URL matches); C03 decides termination, an amortised cost bound is out of reach of the analysis.")

P(id="L01", title="Parsing and compiling a pattern never panics or exhausts memory",
  statement="For every pattern text NewScanner returns a scanner or an error; it never panics, hangs or allocates without bound.",
  over=["inputs"], quant="every pattern text",
  why="Tests parse a few dozen malformed patterns.",
  files=["internal/match/resyntax.go", "internal/match/rematch.go"], mech=[("reParse", "internal/match/resyntax.go")],
  technique="-", note="-",
  na="Parsing and compilation recurse over a tree built at run time and size their output by numbers in the pattern, so neither stack depth nor memory has a static bound; automaton construction is exponential in the worst case by design.")

P(id="O01", title="The old package's Cover never panics",
  statement="For every text and every license list, old.Checker.Cover returns.",
  over=["inputs"], quant="every text and license list",
  why="The old package's own tests no longer build.",
  files=["old/license.go", "old/normalize.go"], mech=[("Checker.Cover", "old/license.go")],
  technique="-", note="-",
  na="Its indexes come from word tables and n-gram indexes filled at run time whose invariants span the whole construction; the deprecated package is covered by C04 to C08 only.")
