"""The properties: what they say, where they are anchored, how they are decided."""

PARSE = "crates/mitex-parser/src/parser.rs"
CONV = "crates/mitex/src/converter.rs"
LEX = "crates/mitex-lexer/src/lib.rs"
TOK = "crates/mitex-lexer/src/token.rs"
MAC = "crates/mitex-lexer/src/macro_engine.rs"
STD = "packages/mitex/specs/latex/standard.typ"
NOT_APPLICABLE = []

PROPS = [
    dict(
        id="C01",
        title="Every conversion ends with code or an error",
        statement="For every input string, with the default command table or another, converting it as a formula and as a document either returns Typst code or returns an error with a non-empty message. "
        "It never panics, never overflows the stack or kills the process in another way, and never runs on without returning, "
        "whatever the nesting, the repetition, the characters or the macro definitions in the input.",
        forall="all Unicode strings, in both modes, including deeply nested, long, malformed and self-referential ones",
        why="The tests convert about a hundred fixed, mostly well-formed snippets; panics sit in the handling of malformed, nested and macro-generated input.",
        files=[PARSE, CONV, LEX, MAC, TOK],
        mech=[("recovering parser with a nesting limit", PARSE), ("macro expansion budget", MAC), ("error results of the converter", CONV)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="hostile-workload runs watched from outside the process (panic, abort, CPU-time monitor)",
        note="Holds on the inputs executed; a case that uses 40 s of CPU time counts as not returning (cases take milliseconds).",
    ),
    dict(
        id="C14",
        title="Formulas keep their structure",
        statement="A well-formed formula converts to Typst code whose syntax tree has the same structure as the formula: characters and symbols in order, each command applied to exactly "
        "its arguments, groups, scripts and primes on exactly their base (an empty base where there is none), paired delimiters around exactly their content, infix commands between exactly what "
        "stands before and after them in their group, and style commands over exactly the rest of their group. Symbols appear under the name the command table declares for them, and "
        "characters that are special in Typst stand for themselves.",
        forall="all well-formed formulas built from words, marks, symbols, groups, scripts, primes, commands with arguments, roots, paired delimiters, infix, postfix and style commands, environments",
        why="Every defect here is about a combination (a script after a command after a style switch inside a cell); the snapshot tests fix a few dozen combinations.",
        files=[PARSE, CONV, "crates/mitex-parser/src/arg_match.rs"],
        mech=[("argument matcher and checkpoints of list items", PARSE), ("recursive converter", CONV)],
        observe=["mitex::convert_math"],
        technique="reference-model monitor over generated formulas, compared on Typst's own syntax tree",
        note="Reference printer works from the abstract formula; Typst's parser (typst-syntax 0.14.2) is trusted to read both sides.",
    ),
    dict(
        id="C03",
        title="Tokens partition the source, by the rules of the language",
        statement="The token stream of a source text covers it: every character belongs to exactly one token or to the clause of an environment, in order, with nothing skipped, doubled or changed. "
        "Each token has the extent and the kind that the rules give it: control sequences with their names (a trailing star only if such a command is declared), environment clauses with spaces and comments in them, "
        "comments up to the line end, line breaks, dollar signs single or double, braces, marks, conditionals and words. "
        "Peeking shows what is then taken, and taking characters off a word leaves the rest of it.",
        forall="all Unicode source texts and all command tables, in particular texts with more tokens than are buffered at once",
        why="The tests lex a few dozen short inputs through the parser; names at the end of the input, unusual white space, stars, and long inputs are not among them.",
        files=[LEX, TOK, "crates/mitex-lexer/src/stream.rs"],
        mech=[("token rules", TOK), ("paged token stream", LEX)],
        observe=["mitex_lexer::Lexer"],
        technique="reference-lexer monitor over hostile token streams",
        note="The reference lexer is hand-written, character by character, over the whole input.",
    ),
    dict(
        id="C04",
        title="The syntax tree keeps the source text",
        statement="The syntax tree of a source text without macro definitions and conditionals holds its significant text: the concatenated leaves are the source, in order, up to layout and comments, and the delimiters of environment clauses. "
        "Parsing with and without macro support gives the same tree for such a text. "
        "Ranges of nodes and leaves nest and follow each other without gaps.",
        forall="all Unicode source texts without macro definitions and conditionals, well-formed or not",
        why="Lost or doubled text shows only where recovery, buffering and argument matching meet, for inputs the snapshot tests do not contain.",
        files=[PARSE, LEX],
        mech=[("lossless green tree", PARSE)],
        observe=["mitex_parser::parse", "mitex_parser::parse_without_macro"],
        technique="conservation monitor over the syntax trees of hostile inputs",
        note="Layout is compared loosely, all other characters exactly.",
    ),
    dict(
        id="C05",
        title="Constructs extend from their opening to their closing",
        statement="In the syntax tree of a source text with matching delimiters, every token lies in exactly the groups, brackets, paired delimiters, environments and formulas that are open at its place in the text, "
        "from the opening sign to the closing one, in the same order of nesting. "
        "In particular, arguments, scripts and infix commands never move a token out of a construct or into another one.",
        forall="all nestings of groups, brackets, paired delimiters, environments, inline and display formulas, with commands of any arity in between",
        why="The extents depend on the interplay of argument matching with each closing sign; tests sample a few nestings.",
        files=[PARSE, "crates/mitex-parser/src/arg_match.rs"],
        mech=[("scopes of the parser", PARSE)],
        observe=["mitex_parser::parse"],
        technique="trace monitor: stack automaton over the tokens against the ancestors in the syntax tree",
        note="Generated texts are balanced by construction and hostile in content.",
    ),
    dict(
        id="C06",
        title="Commands take exactly the arguments their declaration allows",
        statement="A command or environment binds, from what follows it, exactly the sequence of arguments that its declared pattern accepts: the longest accepted one, single characters, control sequences and groups each as one argument, "
        "bracketed ones where the pattern has brackets, across spaces, line breaks and comments. What is not accepted stays outside, as does everything behind a script sign, a cell separator or the end of the enclosing construct. "
        "This holds for every declared pattern, of fixed length, optional, or mixed with brackets and parentheses, in the default table and in tables of the user.",
        forall="all argument patterns and all sequences of following items",
        why="Patterns and inputs form a product that the tests touch at about twenty points.",
        files=["crates/mitex-parser/src/arg_match.rs", PARSE, "crates/mitex-glob/src/lib.rs"],
        mech=[("argument matchers", "crates/mitex-parser/src/arg_match.rs")],
        observe=["mitex_parser::parse with a command specification"],
        technique="reference-model monitor: set of accepted prefixes computed from the pattern",
        note="Patterns whose alternatives begin alike are left out: the greedy matcher does not promise anything there.",
        over=["inputs", "configurations"],
    ),
    dict(
        id="C07",
        title="Glob patterns accept exactly the prefixes of their words",
        statement="For a pattern of the kind used in command tables (signs, any-sign, classes, stars, choices between words), a sequence of signs is accepted as a prefix if and only if it can be extended to a word of the pattern. "
        "Matching is total: it returns for every pattern and every sequence.",
        forall="all table-style patterns and all sequences of argument signs",
        why="Two patterns are tested, in combination with a handful of inputs.",
        files=["crates/mitex-glob/src/lib.rs"],
        mech=[("prefix mode of the glob matcher", "crates/mitex-glob/src/lib.rs")],
        observe=["mitex_glob::glob_match_prefix"],
        technique="reference-model monitor: set-of-states matcher",
        note="Patterns with ambiguous alternatives or nested braces are outside the promise.",
    ),
    dict(
        id="C13",
        title="Documents keep their text and inline structure",
        statement="A well-formed document converts to Typst markup with the same words, punctuation, spaces and paragraph breaks in the same order, in which nothing becomes markup by accident: characters special to Typst and escaped characters stand for themselves. "
        "Text commands, headings, quotations, colours, references, labels and formulas wrap exactly what they wrap in the source, formulas in a line stay in the line, and displayed ones stay displayed.",
        forall="all documents of words, marks, escapes, text commands, groups, headings, quotes, labels, references, colours and formulas, in any layout",
        why="Text passes through half a dozen special cases (escapes, ties, quotes, words that look like markup) whose combinations the tests do not reach.",
        files=[CONV, PARSE],
        mech=[("text mode of the converter", CONV)],
        observe=["mitex::convert_text"],
        technique="reference-model monitor over generated documents, compared on Typst's own syntax tree",
        note="Typst's parser (typst-syntax 0.14.2) is trusted to read both sides.",
    ),
    dict(
        id="C16",
        title="Figures, tables, images and labels keep their parts",
        statement="A figure or table float converts to one figure whose body has the parts of the source in order, whose caption is the caption's content, and which carries its label; a labelled environment carries its label outside of its equation. "
        "A tabular has as many columns as its column letters, with their alignments and the vertical lines where the bars are, every cell with exactly its content in its row and column (short rows filled up), and a horizontal line where a rule is. "
        "An image has exactly the path of the source and its width and height, relative ones as a share of the line.",
        forall="all floats, tabulars, images, captions and labels, in any order of parts and any layout",
        why="Three documents with figures are tested; cells, rules, comments, captions and labels interact.",
        files=[CONV],
        mech=[("figure, table and image handling", CONV)],
        observe=["mitex::convert_text"],
        technique="reference-model monitor over generated documents, compared on Typst's own syntax tree",
        note="Typst's parser (typst-syntax 0.14.2) is trusted to read both sides.",
    ),
    dict(
        id="C17",
        title="Lists keep their items and nesting",
        statement="An itemize or enumerate converts to a Typst list with the same kind, the same items in the same order with exactly their content, and nested lists inside the item they belong to, at every depth and mixture of kinds. "
        "What precedes or follows the list is not part of any item.",
        forall="all nestings of lists, with running text, formulas and nested lists in items, in any layout",
        why="Nesting is carried by indentation that depends on line breaks anywhere in the source; tests have two lists.",
        files=[CONV],
        mech=[("list indentation", CONV)],
        observe=["mitex::convert_text"],
        technique="reference-model monitor over generated documents, compared on Typst's own syntax tree",
        note="Typst's parser (typst-syntax 0.14.2) is trusted to read both sides.",
    ),
    dict(
        id="C12",
        title="The code of a formula or document stays in its place",
        statement="The code for a well-balanced input is well-formed Typst: a formula's code parses without an error, and put into an equation or into an argument of a call it neither ends that place early nor splits the argument in two; "
        "a document's code parses without an error and, put into a content block, does not end the block. "
        "No text of the input, whatever its characters, can leave the role of text and become code, markup or an argument.",
        forall="all inputs with matching delimiters, well-formed otherwise or not, in both modes, outside the listed limits (delimiters without a partner as arguments, text commands without an argument, labels in odd places)",
        why="Each special character meets each special case of the converter; the tests contain some dozen of those meetings.",
        files=[CONV],
        mech=[("escaping and the placing of code", CONV)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="well-formedness monitor with Typst's parser over hostile and structured workloads",
        note="Typst's parser (typst-syntax 0.14.2) decides well-formedness, alone and in the surroundings named.",
    ),
    dict(
        id="C15",
        title="Matrices, cases and aligned formulas keep their cells",
        statement="A matrix-like, cases-like or aligned environment converts to one call of its Typst counterpart that has the same rows, the same number of cells in each row, and in every cell exactly what the cell's source converts to on its own. "
        "Cells may be empty or hold environments, groups, infix and style commands of their own; a trailing row end adds no row, and an argument of the environment becomes its named argument. "
        "An error in a cell is an error of the whole.",
        forall="all such environments of the command table, all numbers of rows and cells, ragged ones included, with any well-formed cell content, nested and in any surroundings",
        why="The meaning of a separator depends on the environment, the group and the command around it; tests have simple letters in their cells.",
        files=[CONV, PARSE, STD],
        mech=[("rows and cells by the feature of the environment", CONV)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="shape monitor over generated grids, on Typst's own syntax tree",
        note="What a cell converts to on its own is taken from the converter; C14 decides that part.",
    ),
    dict(
        id="C24",
        title="Layout and comments do not matter",
        statement="Two sources that differ only in layout convert to the same Typst structure, and are both accepted or both rejected. In a formula, layout is spaces, line ends and comments between the tokens; "
        "in a document, it is the kind and width of spaces within a line, the kind of line ends, and the text of comments. "
        "The text of a comment never shows in the code.",
        forall="all inputs without definitions and conditionals, in both modes, outside arguments that are taken literally (labels, paths, table columns, text)",
        why="Layout can be put at any place of any input; the tests have it at a few.",
        files=[PARSE, CONV, "crates/mitex-parser/src/arg_match.rs"],
        mech=[("trivia in lists and arguments", PARSE), ("spaces in the code", CONV)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="metamorphic monitor: pairs of executions on differently laid out sources",
        note="Compares two executions of the same code, on Typst's own syntax tree; what the common structure should be is C13's and C14's part.",
    ),
    dict(
        id="C26",
        title="Parts convert the same wherever they stand",
        statement="The code of a closed formula is the same structure wherever it stands: alone, in a group, as an argument, script, root, cell, line, operand, between delimiters, and in inline and displayed formulas of documents, also within text commands. "
        "Neighbours do not influence each other, and an error of a part is an error of the whole.",
        forall="all pairs of closed formulas, well-formed otherwise or not, in all these places",
        why="A state that leaks from one part into the next needs two particular parts in particular places.",
        files=[CONV, PARSE],
        mech=[("mode and environment of the converter", CONV), ("scopes of the parser", PARSE)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="metamorphic monitor: conversions of parts against the conversion of the whole",
        note="Compares executions of the same code, on Typst's own syntax tree.",
    ),
    dict(
        id="C08",
        title="Using a macro is the same as writing out its definition",
        statement="A source that defines and uses command and environment macros converts to the same Typst structure as the source in which each use is written out: the definition's text at that place, with the arguments in place of the parameters, and for an environment its begin text, its body and its end text. "
        "This holds at every place of formulas and documents, for up to nine arguments given as groups, single characters or single commands, the first one in brackets or left out where it has a default, with any layout between them, for macros that use, define or take other macros, and for halves of constructs. "
        "A definition itself leaves nothing behind in the code.",
        forall="all programs of definitions and uses with braced definitions and parameters, of any length and nesting",
        why="Expansion works on a paged token stream and meets every other construct; the tests expand some dozen short macros.",
        files=[MAC, LEX, "crates/mitex-lexer/src/snapshot_map.rs", PARSE],
        mech=[("macro expansion", MAC), ("paged token stream", LEX)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="reference-expander monitor: conversions of programs against those of their expansions",
        note="The reference expander works on the tokens of the generated program; scoping by groups, optional arguments and nested parameters are not claimed.",
    ),
    dict(
        id="C09",
        title="Macro definitions take effect in order, mistakes are errors",
        statement="A use of a macro takes the definition in force at its place in the text: none before the first, and the latest after redefinitions, also for macros used within other macros. Defining an existing macro anew is an error, so is renewing one that neither is defined nor belongs to the command table, while providing an existing one changes nothing; starred forms act alike. "
        "Too few arguments before the end of the input, the group or the environment, brackets of an argument that are not closed, an environment macro that is not closed or closed by another name, and endless expansion are errors.",
        forall="all sequences of definitions, redefinitions and uses of command and environment macros",
        why="What is right depends on the history of the text before; the tests have histories of one or two steps.",
        files=[MAC],
        mech=[("table of macros and the kinds of update", MAC), ("budget of expansion", MAC)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="reference-model monitor: history of definitions and uses against a map of macros",
        note="Malformed definitions are not claimed (they are skipped).",
    ),
    dict(
        id="C11",
        title="Conditionals keep the branch that holds and nothing else",
        statement="A source with \\iftrue and \\iffalse conditionals, with or without \\else, nested in any way, in macros and around definitions, converts to the same Typst structure as the source with the branches that hold in their places. "
        "Skipped text has no effect, whatever it contains: it defines nothing, uses nothing and is no argument, base or cell of anything. "
        "The code in an \\iftypst branch is copied as it is and its alternative is skipped; an \\else or \\fi without its condition, and any other condition, is an error.",
        forall="all terminated conditionals, at any place of formulas and documents, with any skipped text",
        why="Conditionals are handled half in the token stream and half in the parser; the tests have a dozen, none of them around arguments or definitions.",
        files=[MAC, PARSE, TOK],
        mech=[("stack of conditions", MAC), ("block comments and Typst code", PARSE)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="reference-expander monitor: conversions of programs against those of the branches that hold",
        note="Conditionals without \\fi are not claimed.",
    ),
    dict(
        id="C25",
        title="Mistakes are reported, not converted",
        statement="A source with a mistake in it is rejected with an error instead of being converted to something: a command or environment that neither the table nor the source defines, an unmatched closing brace, "
        "an \\end, \\right or closing of a formula without its beginning, an unpaired dollar sign before further content, or an item outside of a list. "
        "This holds at every place of formulas and documents, however deep, and the error names the unknown command or environment.",
        forall="all inputs in both modes with one such mistake put at any place that is not taken literally (labels, paths, colour models, comments, table columns)",
        why="Errors are passed up by hand through every construct; a place that drops one shows only with a mistake inside that very construct, and the tests have about ten.",
        files=[CONV, PARSE],
        mech=[("error nodes and their reporting", CONV), ("recovery of the parser", PARSE)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="fault injection: one mistake put into sources that are otherwise converted, outcome monitored",
        note="Unclosed constructs at the end of the input are not claimed (groups, environments and empty formulas may stay open, which the tests fix).",
    ),
    dict(
        id="C18",
        title="Every command of the table converts as it is declared",
        statement="Each command and environment of the command table, used with the arguments its declaration asks for, converts to exactly the code its declaration names, applied to exactly these arguments, and the code is well-formed. "
        "This holds for every entry alone, next to other items, in arguments, scripts, roots, cells, paired delimiters, operands and formulas of documents. "
        "A name that merely begins like a declared one is unknown.",
        forall="all entries of the default command table (symbols, commands with arguments, infix, postfix and style commands, environments), at all these places",
        why="The table has a thousand entries and the tests use about a hundred of them, mostly alone.",
        files=[STD, CONV, "crates/mitex-spec/src/lib.rs"],
        mech=[("command table", STD), ("conversion of commands by their declaration", CONV)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="exhaustive runs over the table and the places, reference-model monitor on Typst's syntax tree",
        note="The declarations are read from the embedded table (C19 compares that with its sources). Lists, floats, images, colours and labels are C13's, C16's and C17's.",
    ),
    dict(
        id="C10",
        title="Conversions are pure: same input, same outcome, everywhere",
        statement="The outcome of a conversion depends on nothing but the source, the mode and the command table. "
        "It is the same whatever was converted before (definitions, errors and tables of other conversions included), in any order, on any number of threads at once, also as the very first conversions of a process, and in every process. "
        "Conversions at once on several threads have no data race.",
        forall="all sets of conversions, all their orders and interleavings",
        why="The tests run each conversion once, mostly one after another, and compare nothing across runs.",
        files=[CONV, "crates/mitex/src/lib.rs", MAC, "crates/mitex-spec-gen/src/lib.rs"],
        mech=[("no state outside of a conversion but the shared tables", CONV), ("lazily built default tables", "crates/mitex-spec-gen/src/lib.rs")],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="race detector (ThreadSanitizer) and differential monitor over orders, threads and processes",
        note="Interleavings are those the scheduler produces under contention; ThreadSanitizer sees unordered accesses on the executions made.",
        over=["schedules", "histories"],
    ),
    dict(
        id="C02",
        title="The work of a conversion grows no faster than its source",
        statement="Repeating any part of a source eight times as often makes the conversion take about eight times the time and memory, and its code about eight times as long, whatever the part and whatever construct it stands in. "
        "Macro definitions expand at most to a fixed bound: a conversion of a short source with any definitions ends within seconds and within bounded memory, with code or an error.",
        forall="all parts of sources (constructs, halves of constructs, mistakes) repeated in any surroundings, up to 800 KB; all short sources with definitions",
        why="Tests have sources of a few lines; a scan of everything seen so far at each token goes unnoticed there and stops real documents.",
        files=[MAC, CONV, PARSE],
        mech=[("macro expansion and its budget", MAC), ("argument matching", "crates/mitex-parser/src/arg_match.rs")],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="runtime monitor of CPU time, allocations and output of growing workloads",
        note="Time is measured, with a factor of three of tolerance at each of two scales; allocations and code are exact. Nesting is C01's.",
    ),
    dict(
        id="C20",
        title="Command tables survive their binary and declared forms",
        statement="A table written to bytes and read back, at any place in memory and with or without validation, has exactly the same names with exactly the same declarations, and so has the table read from its JSON declaration in which each kind of entry, short forms included, means what the documentation says. "
        "Damaged bytes are either refused with a panic or make a table that can be used; memory stays intact.",
        forall="all command tables (any names, aliases, patterns, lengths, contexts), all damage by up to four changes of bytes",
        why="The tests read back one table; the binary form is read through unsafe code, at addresses and with contents that the tests do not choose.",
        files=["crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/stream.rs", "crates/mitex-spec/src/query.rs", "crates/mitex-spec/src/preludes.rs"],
        mech=[("binary form", "crates/mitex-spec/src/stream.rs"), ("kinds of entries", "crates/mitex-spec/src/query.rs")],
        observe=["mitex_spec::CommandSpec", "mitex_spec::JsonCommandSpec"],
        technique="AddressSanitizer and round-trip monitor with fault injection on the bytes",
        note="",
    ),
    dict(
        id="C21",
        title="A given command table is the one that is used",
        statement="With a command table of one's own, exactly its commands and environments are known, with its names, arguments, contexts and code. "
        "Giving all commands of a source other names, in the source and in the table, leaves the outcome as it is; other code declared for a command comes out in the place of the old; a command that the table lacks is an error, as is one that only the default table has.",
        forall="all tables made from the default one by renaming, by other code and by removing entries, and all sources; names that the documentation gives a fixed meaning (items, labels, images, colours, table rules, text styles, pairs, conditionals, definitions) keep theirs",
        why="The tests use the default table, and one small table in one test.",
        files=["crates/mitex/src/lib.rs", CONV, PARSE, MAC],
        mech=[("look-up of names", PARSE), ("conversion by declaration", CONV)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="metamorphic and reference-model monitors over altered command tables",
        note="",
    ),
    dict(
        id="C19",
        title="Library, plugin and package agree on the command table",
        statement="The command table built into the library and into the plugin is the one that the package declares in Typst: the same names, each with exactly the declared kind, arguments, context and code, nothing more and nothing less. "
        "A use of a command is converted to the same code, or refused with the same message, by the library and by the plugin.",
        forall="all entries of the default table and all names not in it",
        why="The table is made at build time by running Typst over the package's declarations; no test compares the two.",
        files=["crates/mitex-spec-gen/build.rs", "crates/mitex-spec/src/query.rs", STD, "packages/mitex/specs/mod.typ"],
        mech=[("generation of the table", "crates/mitex-spec-gen/build.rs"), ("kinds of entries", "crates/mitex-spec/src/query.rs")],
        observe=["mitex_spec_gen::DEFAULT_SPEC", "mitex-wasm.convert_math"],
        technique="exhaustive comparison monitor over the table's entries, in the library, in the plugin and in Typst",
        note="The plugin is compiled from the crates with a stand-in for the wasm-minimal-protocol macro, whose git source is not in the sandbox.",
    ),
    dict(
        id="C22",
        title="The command line program writes a document that shows the source",
        statement="Compiling a LaTeX file that converts with the command line program exits with success and writes, at the given place or beside the source with the extension typ, a Typst document that imports this version of the package and, set by Typst, "
        "shows exactly what the package's text function shows for the same source. It depends on nothing but the source, replaces what the file held before, and no other file changes; the syntax stage writes the syntax tree instead.",
        forall="all LaTeX sources that convert and that Typst can set, all paths and ways to give them, whatever stands in the output file before",
        why="No test runs the program.",
        files=["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/lib.rs"],
        mech=[("prelude that binds the names of the code", "crates/mitex-cli/src/main.rs"), ("paths and options", "crates/mitex-cli/src/lib.rs")],
        observe=["mitex compile"],
        technique="differential monitor of the program's files and of what Typst draws from them",
        note="Typst 0.14.2 as a library, with its embedded fonts, draws both sides. \\set is a known finding.",
    ),
    dict(
        id="C23",
        title="The command line program fails without damage",
        statement="When the source cannot be read, is not text or does not convert, when the arguments are wrong, or when the output cannot be opened or written, the program exits with a failure code and a message, "
        "which contains the converter's message if there is one; it never panics. Every file, the output included, then is as it was before.",
        forall="all inputs, arguments and file system states that make a compilation fail; running out of disk space half-way is not included",
        why="No test runs the program.",
        over=["inputs", "faults"],
        files=["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/lib.rs", "crates/mitex-cli/src/utils.rs"],
        mech=[("conversion before writing", "crates/mitex-cli/src/main.rs"), ("error reports", "crates/mitex-cli/src/utils.rs")],
        observe=["mitex compile"],
        technique="fault-injection monitor of exit codes, messages and the files before and after",
        note="",
    ),
    dict(
        id="C27",
        title="What converts can be set by Typst with the package",
        statement="The code that a well-formed formula or document converts to is accepted by Typst together with the package: every command and environment of the table, in every place and with every form of its arguments, "
        "names something that the package or Typst defines, and calls it with arguments that it takes. References to labels that the source does not set are excepted.",
        forall="all entries of the default table with all forms of arguments; all well-formed formulas and documents",
        why="The tests compare code as text and never set it; a handful of documents is set by hand.",
        files=[STD, "packages/mitex/mitex.typ", CONV],
        mech=[("scope of the package", STD), ("calls in the generated code", CONV)],
        observe=["packages/mitex/lib.typ: mi, mitex, mitext"],
        technique="monitor of Typst's compilation of the generated code, exhaustive over the table's entries, then random",
        note="Typst 0.14.2 with its embedded fonts; six table entries that it rejects are known findings.",
    ),
    dict(
        id="C28",
        title="Nothing that is written is lost, doubled or moved",
        statement="What stands in an accepted source shows: a character put at any place of its running text or formulas comes out exactly once, as visible text, in the order of the source (a caption may move within its float). "
        "Only comments and what is read literally (labels, paths, sizes, colours, columns, placements) are not text. A source may also be rejected with an error, but never lose a part silently.",
        forall="all accepted sources without definitions and conditionals and all places in them, well-formed or not; text environments inside formulas and malformed options are not claimed",
        why="Every construct passes its children on by its own code path; one that forgets, repeats or reorders some shows only with content at that very place, and the tests have one formula per construct.",
        files=[CONV, PARSE, "crates/mitex-parser/src/arg_match.rs"],
        mech=[("conversion of the children of each construct", CONV), ("binding of arguments", PARSE)],
        observe=["mitex::convert_math", "mitex::convert_text"],
        technique="conservation monitor: marks put at random places of structured, damaged and hostile sources, found again in the code by Typst's own parser",
        note="Typst's parser (typst-syntax 0.14.2) is trusted to tell text from code. Of two captions of a float the first is lost (known finding).",
    ),
    dict(
        id="C29",
        title="Colours reach exactly what they colour",
        statement="Every character of a formula or document is drawn in the colour that LaTeX gives it: that of the innermost coloured part or of the last colour switch before it in its group, cell, argument or environment, and black without one; "
        "and on the background of the innermost box. Colours given by name and in the models gray, rgb, RGB, HTML and cmyk have the values that LaTeX defines.",
        forall="all nestings of colour switches, coloured parts and boxes with groups, cells, arguments and environments, in formulas and documents, and all colours of the models",
        why="The tests compare a few colour commands as code; what is drawn depends on the converter, the package and the grouping together.",
        files=[CONV, "packages/mitex/specs/prelude.typ", STD],
        mech=[("colour commands", CONV), ("colour models", "packages/mitex/specs/prelude.typ")],
        observe=["packages/mitex/lib.typ: mitex, mitext"],
        technique="reference-model monitor of the drawn glyphs' colours",
        note="A script directly behind a colour switch, and heights of boxes around tall content, are left out.",
    ),
    dict(
        id="C30",
        title="The plugin does what the library does",
        statement="Called from Typst, the plugin returns for every source and table exactly the code that the library returns, or fails with exactly its message, independent of the calls before; for bytes that are not text it fails with a message. "
        "It never traps, also not for the deepest nesting that the library accepts. A table compiled by the plugin from JSON is the library's table.",
        forall="all sources, tables and bytes, in both modes, and all sequences of calls",
        why="No test runs the plugin; it has another word size, another allocator and a small stack.",
        over=["inputs", "histories"],
        files=["crates/mitex-wasm/src/lib.rs", "crates/mitex/src/lib.rs", "crates/mitex-spec/src/lib.rs"],
        mech=[("entry points", "crates/mitex-wasm/src/lib.rs"), ("nesting limit", PARSE)],
        observe=["mitex-wasm.convert_math", "mitex-wasm.convert_text", "mitex-wasm.compile_spec"],
        technique="differential monitor of the WebAssembly plugin, run by Typst, against the native library",
        note="The plugin is compiled from the crates with a stand-in for the wasm-minimal-protocol macro, whose git source is not in the sandbox.",
    ),
    dict(
        id="C31",
        title="The package's functions show the converted code",
        statement="Each function of the package draws what Typst draws from the library's code for the same source: the inline function an inline formula, the block functions a block formula unless told otherwise, with all further options of equations handed on, and the text function the document. "
        "Sources are taken as strings, raw texts and text elements alike; a source that does not convert is an error with the library's message, and an argument that is no source is an error.",
        forall="all sources, given as strings or raw texts, all functions and options of the package",
        why="No test runs the package.",
        files=["packages/mitex/mitex.typ", "packages/mitex/lib.typ"],
        mech=[("functions", "packages/mitex/mitex.typ")],
        observe=["packages/mitex/lib.typ: mi, mimath, mitex, mitext, mitex-convert"],
        technique="differential monitor of what Typst draws",
        note="Typst 0.14.2 with its embedded fonts draws both sides.",
    ),
]
