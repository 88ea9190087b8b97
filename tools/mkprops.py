#!/usr/bin/env python3
# Generates /verif/properties.jsonl (the single source for property texts).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))

prop("C01","Compiled patterns match exactly what PEG semantics prescribe",
 "For every well-formed pattern (no left recursion, no repetition of something that can succeed without consuming) and every subject, executing the compiled and optimised program reports success exactly when the PEG definition of the pattern's operators (ordered choice, sequence, greedy repetition, option, predicates, any, sets, literals, constant repetition, search) succeeds on a prefix of the subject, and then reports the length of exactly that prefix. The verdict depends only on the pattern and the subject bytes: compiler and optimiser rewrites, buffer boundaries and how the pattern was assembled never change it. Execution always terminates and never panics on such patterns.",
 ["programs","inputs"],"all well-formed patterns built from the public constructors, all byte strings",
 "The tests run a few dozen pattern/subject pairs; each rewrite (head-fail tests, set merging, disjointness, span, jump threading) is only right under side conditions on bytes and sets that no finite sample covers.",
 ["pattern/compile.go","pattern/optimize.go","pattern/pattern.go","vm/vm.go","vm/stack.go","vm/code.go"],
 [("per-node code generation","pattern/compile.go Compile methods"),("tree rewrites","pattern/optimize.go Get, combine"),("peephole optimiser","pattern/optimize.go Optimize"),("virtual machine loop","vm/vm.go exec")],
 state=[("backtrack stack","return addresses, choice points and pending captures","vm/stack.go")],
 observe=["Code.Exec return values"])
prop("C02","The capture tree is exactly that of the successful derivation",
 "After a successful parse the returned tree contains one node for every capture the PEG derivation completed, with its identifier, start and length, nested and ordered as in the derivation, and nothing from failed alternatives, abandoned iterations or negative lookahead. Captures completed inside a positive lookahead are kept. Constant-width and late-start capture shortcuts produce the same nodes as a capture opened at the start.",
 ["programs","inputs"],"all well-formed patterns with captures, all subjects",
 "One test checks captures on one string; leaks through backtracking or shared backing arrays need particular combinations of choice, repetition and nesting.",
 ["vm/vm.go","vm/stack.go","pattern/compile.go","memo/capture.go"],
 [("capture propagation on pop/commit","vm/stack.go pop, propCapt, addCapt"),("late/full capture hoisting","pattern/compile.go CapNode.Compile")],
 observe=["capture tree returned by Code.Exec"])
prop("C03","Grammar names resolve to their definitions, whatever the compiler inlines",
 "In a grammar every non-terminal reference behaves exactly like its definition in the nearest enclosing grammar that defines it, for recursive, mutually recursive, tail-position and nested (including searched) references alike, and independently of the order of definitions, of how large the definitions are, and of the inlining threshold. Compiling a pattern that refers, at top level or in a definition reachable from the start, to a name no enclosing grammar defines reports a not-found error instead of panicking or producing a program (whether a name in an alternative behind one that always succeeds, or in an unreachable definition, is reported is left open).",
 ["programs","inputs","configurations"],"all grammars, all inlining thresholds, all map iteration orders, all subjects",
 "Tests compile a handful of grammars with one threshold and whichever map order the run happens to get.",
 ["pattern/compile.go","pattern/optimize.go","pattern/nodes.go"],
 [("inlining","pattern/optimize.go GrammarNode.inline"),("open call resolution and tail calls","pattern/compile.go GrammarNode.Compile"),("search grammar","pattern/compile.go SearchNode.Compile")],
 observe=["pattern.Compile error","Code.Exec return values"])
prop("C04","Bytecode encoding keeps every operand and jump target or refuses",
 "Encoding a program to bytecode preserves the meaning of each instruction for every operand value in the documented ranges: bytes, character sets, counts, capture, memo and checker identifiers, flags, messages and jump targets of programs of any encodable size all reach execution unchanged. A program whose operands or size do not fit the encoding is rejected loudly and never executed with truncated operands. Labels and no-ops take no space and never shift a jump target.",
 ["programs"],"all instruction kinds, all operand values, all program sizes and label positions",
 "Existing tests only use tiny programs with small operands; operand width, padding and 16/24-bit boundaries are never reached.",
 ["vm/code.go","vm/op.go","vm/vm.go"],
 [("size/padding tables","vm/op.go size, sz constants"),("encoders and decoders","vm/code.go encode*, vm/vm.go decode*"),("range panics","vm/code.go encodeU8/I16/U24")],
 observe=["vm.Encode","Code.Size","Code.Exec"])
prop("C05","A memo table never changes a parse result",
 "For every pattern that memoizes sub-patterns (each memo identifier denoting one pattern) and every subject, parsing with a tree memo table of any threshold, fresh or already filled by earlier parses of the same text with the same program, gives the same verdict, end position and capture tree (identifiers, positions, nesting) as parsing with no table. This covers both single memo entries and repetition entries that are combined into a tree.",
 ["programs","inputs","histories","configurations"],"all memoizing patterns, all subjects, all thresholds, any number of repeated parses",
 "The only test that uses the memo table asserts nothing about results; hit/miss interleavings and tree merging depend on where entries happen to lie.",
 ["vm/vm.go","pattern/compile.go","memo/tree.go","memo/entry.go","memo/capture.go"],
 [("memo open/close","vm/vm.go opMemoOpen, opMemoClose"),("repetition trees","vm/vm.go opMemoTree*, pattern/compile.go StarNode.Compile")],
 state=[("memo table","entries keyed by identifier and position","memo/tree.go")],
 observe=["Code.Exec return values"])
prop("C06","Incremental reparse equals parsing the edited text from scratch",
 "After any sequence of text edits, each reported to the memo table as the replaced interval and the new length, re-parsing with the retained table gives the same verdict, end position and capture tree (identifiers, positions, nesting) as parsing the current text with no table. This holds whatever the edits touch: lookahead beyond a match, zero-width assertions, back to back edits without a parse in between, growth and truncation at either end, and text previously seen as end of input. It does not cover checkers that read outside the text they are given or that keep state.",
 ["histories","inputs","programs"],"all edit/parse histories, all memoizing patterns without stateful checkers, all texts",
 "TestIncrementalJava has its comparison commented out; stale results need an edit inside an examined-but-not-matched region of a particular entry.",
 ["vm/vm.go","memo/tree.go","memo/interval/lazylog/tree.go","input/input.go","memo/capture.go"],
 [("examined-length tracking","vm/vm.go memoize, input/input.go furthest"),("invalidation and shifting","memo/tree.go ApplyEdit, memo/interval/lazylog/tree.go"),("position-relative captures","memo/capture.go setMEnt")],
 state=[("memo table","entries with matched and examined extents","memo/tree.go")],
 observe=["Code.Exec return values after ApplyEdit"])
prop("C07","Interval maps behave as a plain list of shifted intervals",
 "For every history of additions, overlap removals with a shift that does not move intervals onto the removed range's left side, and queries, the interval map answers as a plain list would: a lookup returns the longest live interval stored at that identifier and position and nothing that was removed, every interval that does not touch a removed range stays findable, and the position handle of a live interval reports its current, shifted start. All-values listings contain exactly the live values and the size is their number, whatever lazy shifts are still pending.",
 ["histories"],"all operation histories with arbitrary identifiers, positions, lengths and legal shift amounts",
 "The random tests pass only for one fixed random seed and fail for most others; the failing histories need particular tree shapes (removal of nodes with two children, pending shifts, rotations).",
 ["memo/interval/lazylog/tree.go","memo/interval/lazylog/interval.go","memo/interval/lazy/tree.go","memo/interval/lazy/array.go","memo/interval/map.go"],
 [("AVL insert/remove/rotate","memo/interval/lazylog/tree.go"),("lazy shifts","memo/interval/lazylog/tree.go applyShifts, memo/interval/lazy/tree.go applyShifts"),("max augmentation","updateMax")],
 state=[("interval tree","AVL tree with pending shifts","memo/interval/lazylog/tree.go Tree")],
 observe=["Map.FindLargest","Map.AllValues","Pos.Pos"])
prop("C08","The memo table forgets exactly what an edit can affect",
 "After any history of stores and edits, a memo table lookup never returns an entry whose examined text overlaps an edited range, and still returns every stored entry whose examined text is more than one byte away from all edits, at its shifted position, with its length, count and captures intact and its captures' positions moved along. Entries at or above the examined-length threshold with non-zero length are kept, others are not stored, and among several entries for the same identifier and position the one that examined most is returned. The table's listing contains exactly the kept entries, and its size is their number.",
 ["histories","configurations"],"all put/edit/get histories, all thresholds",
 "No test exercises the table directly; the mapping from edits to removed and shifted intervals has off-by-one corner cases at both ends.",
 ["memo/tree.go","memo/entry.go","memo/capture.go","memo/interval/lazylog/tree.go"],
 [("edit translation","memo/tree.go ApplyEdit"),("threshold and extent","memo/tree.go Put"),("relative capture offsets","memo/capture.go setMEnt, Start")],
 observe=["TreeTable.Get/Put/ApplyEdit/AllValues","Entry accessors","Capture.Start"])
prop("C09","The input cursor presents exactly the reader's bytes",
 "Whatever sequence of peeks, seeks and forward moves is made over a reader of any length, the cursor reports the byte at its position (or end of input), the byte before it, and its position exactly as direct indexing of the reader's content would, and a forward move succeeds exactly when that many bytes remain. Buffer refills and boundaries are invisible. The furthest position reported is never less than the furthest position whose content (or whose end-of-input) the answers so far depended on through peeking; resetting it starts that tracking over at zero.",
 ["inputs","histories"],"all contents and lengths, all sequences of cursor operations, including positions around internal buffer boundaries",
 "Tests use an 11-byte input; the 4096-byte buffer boundary, multi-byte moves across it and seeks out of the buffer are never reached.",
 ["input/input.go"],
 [("chunk cache","input/input.go refill, SeekTo, Advance"),("furthest tracking","input/input.go Peek")],
 state=[("cursor","chunk base, offset and fill","input/input.go Input")],
 observe=["Input.Peek/PeekBefore/Advance/SeekTo/Pos/Furthest/Slice"])
prop("C10","A stream wrapped for random access serves the stream's bytes",
 "Wrapping a forward-only reader yields a random-access reader that, for every offset and length and every way the underlying reader splits its data into short reads and reports end of file or an error, returns the stream's bytes at that offset, returns fewer bytes than asked only together with an error, and can serve earlier data again. The source is read once, in order. Slicing a random-access reader returns exactly the bytes of the requested range that exist.",
 ["inputs","schedules","fault_sequences"],"all read splits including short reads and data returned with an error, all offset/length request sequences",
 "The test uses one bytes.Buffer that always fills the request; short reads and errors with data never occur.",
 ["input/reader.go"],
 [("grow-and-copy buffer","input/reader.go ReadAt"),("range slice","input/reader.go Slice")],
 observe=["input.FromReader(...).ReadAt","input.Slice"])
prop("C11","A rope always holds the text its edits produce",
 "For every history of construction, insertion, removal, splitting, joining, rebuilding and rebalancing, and every setting of the split, join and rebalance thresholds, a rope's content, length and every read through it (single bytes, ranges, streaming output, reading at an offset with end-of-file reporting) equal those of the plain byte string obtained by the same edits. Building a rope from a slice never lets later edits alter that slice's bytes or another rope.",
 ["histories","inputs","configurations"],"all operation histories, contents and option values",
 "Random tests use one size with default thresholds; they never call Rebuild, Rebalance or WriteTo and never check aliasing.",
 ["input/linerope/rope.go"],
 [("node split/merge","input/linerope/rope.go adjust"),("copy on write slices","input/linerope/rope.go insert, remove, NewWithOpts"),("range reads","input/linerope/rope.go slice, ReadAt")],
 state=[("rope tree","leaves with slices, internal nodes with lengths","input/linerope/rope.go Node")],
 observe=["Node.Value/Len/At/ReadAt/WriteTo/SplitAt"])
prop("C12","Rope line and column positions agree with the text",
 "For every rope reached by any edits, the line count, the end location, the conversion from offset to line and column, its inverse, and slices requested by line and column equal what scanning the plain text for the configured line separator gives. Offsets that lie inside the text convert to a line/column pair and back to the same offset. A separator belongs to the line it ends. This holds wherever node boundaries fall and for separators of one or several bytes (ones that cannot overlap themselves).",
 ["histories","inputs","configurations"],"all texts, edits, separators and offsets (a separator of several bytes across a node boundary: known finding)",
 "Random tests sample offsets on one document size; line/column slicing is never tested, nor are separators on node boundaries with small nodes.",
 ["input/linerope/line.go","input/linerope/rope.go","input/linerope/util.go"],
 [("line-length monoid","input/linerope/line.go addlocs, sublocs, llen"),("conversions","input/linerope/rope.go OffsetAt, lineColAt, sliceLC"),("scanners","input/linerope/util.go")],
 observe=["Node.LineColAt/OffsetAt/NumLines/LLen/SliceLC"])
prop("C13","Character sets are exact sets of bytes",
 "Membership, construction from a byte list, inclusive ranges, complement, union, difference, size, the 128-character test and the conversion to the compact form agree with ordinary set operations for every combination of all 256 byte values. An empty list or a range whose low end exceeds its high end denotes the empty set.",
 ["inputs"],"all sets (all 2^256 bit patterns), all bytes, all range bounds",
 "Tests probe a few characters of three sets; word boundaries 63/64, 127/128, 191/192 and the extremes 0 and 255 are not covered.",
 ["charset/charset.go"],[("bit arithmetic","charset/charset.go")],
 observe=["charset.Set and SmallSet methods"])
prop("C14","The textual PEG notation means what it documents",
 "Text in the documented notation compiles to a pattern that matches exactly as the notation prescribes: literals and classes with their escapes (named and octal) and ranges, complemented classes, dot, grouping, prefix and suffix operators with their precedence, ordered choice, memo braces, comments and white space, and definitions whose first rule is the start. Text outside the notation is rejected with an error. Capturing compilation adds one capture per rule and reports the identifier chosen for each rule. (Undocumented and left open: single braces, and a rule defined twice.)",
 ["inputs","programs"],"all notation texts, all subjects",
 "Tests compile two one-line patterns and two grammar files; escape values, range ends, precedence and rejection are not covered.",
 ["re/re.go","re/grammar.go"],
 [("self-hosted grammar","re/grammar.go"),("tree to pattern translation","re/re.go compile, parseChar, compileSet")],
 observe=["re.Compile","re.CompileCap","matching behaviour of the result"])
prop("C15","Compiling untrusted notation text never panics",
 "For every byte string offered as a textual PEG, parsing it, compiling the resulting pattern and encoding the program either yields a program or an error value. No text makes the library panic, loop forever or return a nil pattern without an error. (Texts whose program exceeds the encoding's capacity, such as more than 256 different classes, are refused by the encoder's panic: see C04.)",
 ["inputs"],"all byte strings",
 "No test feeds malformed or unusual text.",
 ["re/re.go","re/grammar.go","pattern/compile.go"],
 [("notation parser","re/grammar.go"),("tree translation","re/re.go compile")],
 observe=["re.Compile","pattern.Compile","vm.Encode"])
prop("C16","Converted regular expressions find what Go's regexp finds",
 "A regular expression accepted by the converter compiles to a pattern that matches an ASCII subject exactly when Go's regexp package finds a match, ends where Go's leftmost-first match ends and captures the same span. Anchors, word boundaries, classes, alternation, nested repetition, greedy and non-greedy operators and case folding keep their meaning. Constructs the converter does not support (counted repetition, repetition of something that can match the empty string) are rejected with an error.",
 ["programs","inputs"],"all supported regular expressions, all ASCII subjects",
 "Five tests convert single small expressions; nested repetition, non-greedy operators and flags are never compared with regexp.",
 ["rxconv/rxconv.go","pattern/compile.go"],
 [("continuation-based conversion","rxconv/rxconv.go pi, star"),("support check","rxconv/rxconv.go verify")],
 observe=["rxconv.FromRegexp and Code.Exec versus package regexp"])
prop("C17","Errors are logged in order and recovery continues the parse",
 "Each error pattern reached during a parse adds its message with the position at which it was reached, in the order reached, and then behaves exactly as its recovery pattern. An error pattern without recovery ends the parse as a failure at that position, keeping the errors logged so far. Patterns that reach no error pattern report no errors.",
 ["programs","inputs"],"all patterns with error nodes, all subjects, parsed without a memo table",
 "One test counts the errors for one input and ignores their positions and messages.",
 ["pattern/compile.go","vm/vm.go","vm/code.go"],
 [("error instruction","vm/vm.go opError"),("recovery code","pattern/compile.go ErrorNode.Compile"),("message table","vm/code.go addError")],
 observe=["errors returned by Code.Exec"])
prop("C18","Checkers decide on exactly the matched text; back-references repeat it",
 "A checked pattern calls its own checker once per successful match of its sub-pattern, with exactly the matched bytes and the identifier and flag it was declared with, fails when the checker refuses, and otherwise consumes exactly the additional bytes the checker asks for. A word-list checker accepts exactly the listed strings. A back-reference use matches exactly the bytes most recently recorded for its identifier, at any distance and of any length.",
 ["programs","inputs"],"all checked patterns, identifiers, flags, matched texts and subjects",
 "Tests use one numeric checker and one back-reference on three strings.",
 ["isa/checker.go","vm/vm.go","pattern/compile.go","input/reader.go"],
 [("check begin/end","vm/vm.go opCheckBegin, opCheckEnd"),("checkers","isa/checker.go"),("checker table","vm/code.go addChecker")],
 observe=["Checker.Check arguments","Code.Exec return values"])
prop("C19","An interval parse returns the captures that overlap the interval",
 "Parsing with a requested interval gives the same verdict and end position as a full parse, and its tree contains exactly those captures of the full parse's tree that share at least one byte with the interval or, if empty, lie strictly inside it, with the same identifiers, positions and relative nesting. The root spans the requested interval extended to cover every capture kept. Used with a memo table that only interval parses and edits have touched, it gives the same answer as without a table.",
 ["programs","inputs","configurations"],"all patterns, subjects and non-empty intervals",
 "ExecInterval has no test at all.",
 ["vm/vm.go"],
 [("overlap filter","vm/vm.go overlaps"),("interval invalidation","vm/vm.go exec")],
 observe=["Code.ExecInterval return values"])
prop("C20","Search matches at the first possible position",
 "A search for a pattern succeeds exactly when the pattern matches at some position of the remaining subject, and it then ends where the match at the smallest such position ends. The skipping shortcut derived from the pattern's first byte or set never skips a match and never finds a later one first. Repeating a search finds successive non-overlapping occurrences.",
 ["programs","inputs"],"all patterns (nullable ones included), all subjects",
 "Two literals are searched in three strings each; set-based skipping and the size cut-off are not covered.",
 ["pattern/compile.go"],
 [("skip heuristic","pattern/compile.go SearchNode.Compile")],
 observe=["Code.Exec return values"])
prop("C21","A program is immutable and parsing is repeatable",
 "Executing a compiled program writes neither to the program nor to the subject, so any number of executions of the same program on the same subject give identical results, in any order and interleaved with executions on other subjects and with parses of intervals. Compiling the same pattern object again, before or after executing it or showing it as text, gives a program with the same behaviour. Encoding does not alter the program it is given.",
 ["histories","programs","inputs"],"all patterns without stateful checkers, all sequences of compile, encode and execute",
 "Tests execute each program a few times with independent inputs and never look at shared state.",
 ["vm/vm.go","vm/code.go","pattern/compile.go","pattern/optimize.go"],
 [("per-run stack and input","vm/vm.go Exec"),("in-place inlining marks","pattern/optimize.go inline")],
 observe=["Code.Exec results across repetitions","pattern.Compile results across repetitions"])
prop("C22","Walking a capture tree visits each visible capture once, in order",
 "For every capture tree, with grouping nodes nested to any depth (empty ones included), iterating over a node's children yields every visible descendant not below another visible one, once, in order; the child count is the number of captures yielded; and the n-th child is the n-th yielded, or none if out of range; several walks at a time do not disturb each other. Start, length and end are consistent for nodes inside and outside memo entries.",
 ["inputs"],"all capture trees",
 "One test iterates over one tree with one level of grouping.",
 ["memo/capture.go"],
 [("flattening iterator","memo/capture.go ChildIterator, NumChildren, Child")],
 observe=["Capture.ChildIterator/Child/NumChildren/Start/Len/End"])
prop("C23","Zero-width assertions test the bytes around the position",
 "An assertion of beginning or end of line or text, word boundary or its negation succeeds at a position exactly when the bytes just before and just after that position satisfy its definition in Go's regexp syntax, end of input and buffer boundaries included, and consumes nothing. Inside lookahead, repetition and after backtracking it refers to the current position.",
 ["inputs","programs"],"all subjects, positions and assertion kinds",
 "Two regular expressions on four strings.",
 ["vm/vm.go","input/input.go","pattern/compile.go"],
 [("empty-width check","vm/vm.go opEmpty"),("previous byte","input/input.go PeekBefore")],
 observe=["Code.Exec return values"])
prop("C24","Memoized work is reused",
 "No memoized sub-pattern is evaluated twice at one position, neither within one parse nor when the unchanged text is parsed again with the retained table, provided the first evaluation matched at least one byte or failed and examined as much text as the table's threshold asks for (the attempt that ends a repetition over a memoized pattern is not recorded). After an edit, an evaluation is repeated only if the edit falls into or next to the text from where the evaluation began to the furthest byte the parse had looked at when it ended; results behind the edit are found at their new place. A repetition over a memoized pattern resumes from previously combined runs instead of looking up each element.",
 ["histories","inputs"],"all memoizing patterns, texts and edits",
 "Nothing observes whether memo hits happen; a table that silently loses entries passes every test.",
 ["vm/vm.go","memo/tree.go","memo/interval/lazylog/tree.go"],
 [("memo open","vm/vm.go opMemoOpen, opMemoTreeOpen"),("entry retention","memo/interval/lazylog/tree.go removeOverlaps")],
 observe=["number of checker invocations inside memoized patterns"])
prop("C25","Saved programs load back unchanged",
 "A program saved in the binary form and loaded again behaves exactly as the original on every subject: same verdict, end, captures, messages and checks. Checkers are those of the library (word lists; back-references, also where several nodes share one) and those of a user that gob has been told of. The JSON form does the same for programs without checkers whose messages are plain text. Saving, loading or running other programs in between changes nothing. A program a form has no room for is refused by saving or by loading. Binary data that was truncated or damaged, or never was a program, is reported as an error unless it still stands for the same program; truncated JSON is reported as an error.",
 ["programs","inputs"],"all programs and subjects, every damage to the saved bytes",
 "Tests round-trip one grammar without checkers or messages, compare the instructions only, and damage nothing.",
 ["vm/code.go","isa/checker.go","charset/charset.go"],[("binary form (gob in gzip)","vm/code.go ToBytes, FromBytes, init"),("JSON form","vm/code.go ToJson, FromJson"),("what is saved","vm/code.go code; charset.Set; isa.MapChecker, isa.BackReference"),("sharing of checkers","vm/code.go addChecker")],
 observe=["vm.Code.ToBytes/ToJson","vm.FromBytes","vm.FromJson","Exec on the loaded program"])
prop("C26","A memo table may be shared by concurrent parses",
 "Concurrent lookups, stores, edits, listings and counts on one tree memo table, and reads of the positions of the results found in it, behave as if performed one after another in some order, without data races; parses that share a table at the same time each give the result they give alone.",
 ["schedules","histories"],"all interleavings",
 "No test uses more than one goroutine on a table.",
 ["memo/tree.go","memo/entry.go","memo/capture.go"],[("mutex","memo/tree.go lock"),("positions read outside the table's methods","memo/tree.go lockedPos; memo/capture.go Start")],
 observe=["TreeTable.Get/Put/ApplyEdit/AllValues/Size","Entry.Pos","Capture.Start","Exec with a shared table"])
prop("C27","Separate uses on several goroutines do not disturb each other",
 "Patterns may be put together (also, later, from patterns put together on different goroutines), compiled (also one pattern object twice, or patterns that share parts) and encoded, texts in the notation and regular expressions converted, one program run on several subjects with separate memo tables, one wrapped stream or one unchanging rope read, by several goroutines at the same time: there are no data races, and each use gives the result it gives alone. (Back-references, which keep what was defined last, and checkers of the user that keep state are excepted.)",
 ["schedules","programs","inputs"],"all interleavings",
 "No test starts a second goroutine.",
 ["isa/isa.go","pattern/pattern.go","pattern/compile.go","re/re.go","rxconv/rxconv.go","vm/vm.go","input/reader.go","input/linerope/rope.go"],
 [("identifiers of labels and memo entries","isa/isa.go NewLabel; pattern/pattern.go newMemoId"),("names of converted loops","rxconv/rxconv.go uniq"),("the shared parser of the notation","re/re.go parser"),("a run's state","vm/vm.go exec; vm/stack.go"),("lock of a wrapped stream","input/reader.go ReadAt"),("copy of a grammar before inlining","pattern/compile.go GrammarNode.Compile, clone")],
 observe=["Compile","Encode","re.Compile/CompileCap","rxconv.FromRegexp","Code.Exec","ReaderAt of FromReader","linerope.Node reads"])
prop("C28","Shipped grammars: JSON and the notation exactly; memoized as plain ones",
 "json.peg and json_memo.peg match all of a text exactly when it is a JSON text (RFC 8259; any bytes from 0x20 on within strings); re.peg matches all of a text exactly when re.Compile accepts it, and what peg.peg matches completely re.Compile accepts; json_memo.peg and java_memo.peg, with and without a memo table and also after edits, give the verdict, end and tree (of the rules they share) that json.peg and java.peg give; and every grammar under grammars/ compiles and parses as its text reads, with the tree of its rules.",
 ["programs","inputs","histories"],"all subjects and edits",
 "Tests parse one valid file with json.peg and one with java.peg and look at the verdict, and edit one with java_memo.peg; the other six grammars are never used.",
 ["grammars/json.peg","grammars/json_memo.peg","grammars/java.peg","grammars/java_memo.peg","grammars/re.peg","grammars/peg.peg","grammars/c.peg","grammars/lpeg.peg","grammars/arith.peg","re/re.go","pattern/compile.go"],
 [("JSON","grammars/json.peg, json_memo.peg"),("the notation","grammars/re.peg, peg.peg; re/parser.go"),("memoized variants","grammars/java_memo.peg; pattern MemoNode"),("large grammars","pattern/inline.go, pattern/optimize.go")],
 observe=["re.Compile/CompileCap of grammars/*.peg","Code.Exec","memo.TreeTable.ApplyEdit"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
except ImportError: pass
for p in P:
    assert len(p["title"])<=80,p["id"]
print(len(P))
