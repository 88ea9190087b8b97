REF="the reference PEG interpreter of `harness/ref` (direct recursive definition, no compilation), run on the same symbolic subject; "
P={
"C01":(REF+"verdict and end are compared on every path.","every byte, set and count of a pattern is a solver variable, so the side conditions of each rewrite (disjoint sets, first bytes, head-fail, spans) are met on both sides for every shape.",65),
"C02":(REF+"all nodes (identifier, start, length, nesting, order) are compared.","captures under backtracking, predicates and the late/full shortcuts are checked for every shape within the bounds and every byte.",11),
"C03":(REF+"names are resolved by lexical scope; compile errors are expected exactly for undefined names.","all small systems of definitions, nested to two levels, with definition sizes on both sides of the inlining threshold, and every threshold and every map order that matters.",64),
"C04":("a decoder-independent machine (`machine.go`) that executes the instruction list itself; encoded and direct execution are compared, and operands out of range must be refused.","operands are symbolic over their whole range; program sizes reach the 16 and 24 bit limits.",53),
"C05":("the same program run without a table.","every threshold, every order of parses on a shared table, every byte.",13),
"C06":("the current text parsed with no table.","edits at every place with every length and content, several edits between parses, and patterns whose results depend on lookahead, assertions and the end of input.",75),
"C07":("a plain list of intervals, shifted eagerly.","positions, lengths and shifts are symbolic; histories mix additions, removals and lookups; long runs of pending shifts.",85),
"C08":("a plain list of stored entries with their examined text.","stores, edits and lookups at symbolic positions; captures with several levels.",27),
"C09":("indexing the byte string.","symbolic moves around every buffer boundary; the furthest position is bounded by what was peeked.",62),
"C10":("indexing the byte string the scripted reader delivers.","every split into short reads, every place of an error or end of file, every sequence of offsets.",50),
"C11":("the plain byte string.","symbolic positions and contents, all threshold settings at small scale.",10),
"C12":("scanning the plain text for the separator.","node boundaries at every place, separators of one to three bytes.",24),
"C13":("the definition over a symbolic byte: membership of one arbitrary byte decides equality of sets.","the 256-bit sets are symbolic, so every combination of members is decided at once.",15),
"C14":("a grammar of the notation written in the harness that yields the reference pattern while producing the text; and a reference scanner deciding which texts are in the notation.","texts are generated by symbolic choices with symbolic bytes; the compiled pattern is run on symbolic subjects.",75),
"C15":("absence of panics, non-termination and nil results.","arbitrary bytes of the text are symbolic.",48),
"C16":("a reference matcher for regexp/syntax trees with Go's leftmost-first rules, itself compared with package regexp on concrete models when replayed.","the expression's shape and bytes and the subject are symbolic.",85),
"C17":(REF+"the log of errors is compared entry by entry.","errors in every place of every small pattern.",39),
"C18":("a recording checker and "+REF.rstrip("; ")+".","texts, identifiers, flags and the number of bytes asked for are symbolic.",18),
"C19":("the filtered tree of a full parse (or of the reference).","the interval's ends are symbolic.",40),
"C20":(REF+"search is defined by trying every position.","first sets and bytes are symbolic, so the skip may not miss any match.",67),
"C21":("the same run made first, alone.","any interleaving of runs, encodings and compilations within the bound; every write to program or subject is visible to a later comparison.",62),
"C22":("a recursive walk of the tree's definition.","every tree shape up to the bound, inside and outside memo entries.",4),
"C23":("Go's definition of the assertions over the two neighbouring bytes.","both bytes are symbolic, buffer boundaries and lookahead included.",46),
"C24":("counting checkers inside the memoized patterns; what has been evaluated is predicted from a plain record of earlier evaluations.","texts, edits and thresholds symbolic.",55),
"C25":("the original program: every run of the loaded program is compared with one of the program that was saved. gob, gzip and JSON are modelled by what they document about values (engine/serial.go: exported fields by name, registered names of dynamic types, zero fields left out, checksum read at the end of the data), in a byte format of the model's own; the native replays run the real packages.","contents of programs, the damaged byte and its new value are symbolic.",45),
"C26":("every interleaving (symbolic schedule choices at lock operations) with a happens-before race check on every memory access; results must be those of some sequential order, found by trying them; parses are compared with the parse without a table. Replays run the native build under the race detector with the same schedule.","schedules are symbolic.",90),
"C27":("every interleaving at locks and atomic operations up to a bound on preemptions, with a happens-before race check on every access to memory of the real code; results are compared with the reference or with the same use alone. Replays run under the race detector with the same schedule.","schedules and subjects are symbolic.",95),
"C28":("a hand-written recogniser of JSON texts, re.Compile for the grammars of its notation, the plain grammar for the memoized one, and for every grammar the reference reading of its text (ref.ReadNotation and ref.Run). The grammar files are read from /repo on every run; they are compiled by the real code while the unit starts, once, without symbolic values (java.peg takes 10 s of that).","subjects, the byte in a larger file and the text of an edit are symbolic; the big grammars are the longest programs run anywhere here (java.peg: 6000 instructions).",75),
}
MISSED={k:"caught; first missed, harness strengthened" for k in ("c08-children","c09-furthest","c14-first","c19-late","c21-encode-alias","c07-many-shifts","c21-errors-shared")}
TAIL='''
## Defects found, and findings recorded

`known-findings.txt` lists them. Repaired defects are `fix:` commits in /repo.
The one recorded finding (C12, separators that straddle a leaf boundary) needs a
different node summary and is reported as KNOWN-FINDING by `U_straddle`.

## False alarms met on the way, and what the properties leave open

* C03: a name in a definition that is not reachable, or in an alternative behind
  one that always succeeds, may or may not be reported: the optimiser drops such
  code first.
* C07: intervals that only touch a removed range may stay or go; removals whose
  shift would move later intervals below the start of the range are excluded.
* C08: entries within one byte of an edit may stay or go.
* C12: separators that can overlap themselves have no unique reading.
* C14: single braces and duplicate rules are undocumented.
* C15: texts whose program exceeds the encoding (more than 256 sets) are refused
  by the panic in Encode that C04 asks for.
* C18: what happens when a checker asks for more bytes than remain is not said
  anywhere.
* C19: a full parse leaves entries with all captures in a table, an interval
  parse entries without; mixing both on one table is excluded.
* C23: combinations of several assertion flags in one node are unspecified.
* Left recursion and repetitions of nullable patterns are excluded throughout
  (the library does not terminate on them by design).
* Seen but not part of any statement: errors logged inside a memoized pattern are
  not repeated on a hit; compiling patterns with
  memoized repetitions more than 65536 times in one process exhausts memo
  identifiers; a reader that returns (0, nil) for ever hangs ReaderAt wrapping;
  unclosed `{{{{` in notation text costs time exponential in its depth (bounded
  in C15 `U_deep`).

## Limits of the method here

All listed properties are claimed; none is not-applicable. The standard
library's serialisation is not encoded but modelled (C25), so a bug in how gpeg
*uses* it is in reach and one in gob itself is not. Everything is bounded: sizes
beyond the stated ones are not covered, and bugs that need a larger history than
the bound (deep trees, thousands of entries) are out of reach unless a unit
drives a concrete long prefix (`C07 U_shifts`, `C09 U_jump`, `C19 U_long`,
`C21 U_long` do).
'''
