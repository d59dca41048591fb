#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

LEX, PAR, TOK, ITER = "gfm/src/lexer.rs", "gfm/src/lib.rs", "gfm/src/token.rs", "gfm/src/iter.rs"

prop("C01", "Rendering is total: any UTF-8 document yields HTML",
 "For every UTF-8 document, rendering returns an HTML string: it never panics, aborts, exhausts the stack however deeply the document nests, commits a memory error, or fails to terminate. The time taken grows at most about quadratically, and the memory used and the size of the output at most about linearly, with the length of the document.",
 ["inputs"], "every UTF-8 string, including unbalanced and deeply nested markup, every Unicode width, control characters, NUL, CR, and documents of up to megabytes",
 "The tests render about 690 short well-meant examples; totality is a claim about all strings, and about depth and size no test reaches.",
 [ITER, LEX, PAR, TOK],
 [("cursor never leaves a char boundary; every lexer arm consumes at least one character", "gfm/src/iter.rs MarkdownIter, gfm/src/lexer.rs Lexer::next_token"),
  ("bounded recursion for lists, quotes and details", "gfm/src/lib.rs Parser::parse, gfm/src/lexer.rs parse_details")],
 ["return of Parser::render", "process exit status / signal", "allocator counters", "Miri and AddressSanitizer reports"],
 [("MarkdownIter.index", "byte cursor into the document", "gfm/src/iter.rs")])

prop("C02", "No document can inject markup into the output",
 "For every document, the rendered HTML, tokenised the way a browser does, contains only elements and attributes of the renderer's own fixed vocabulary. Characters of the document never become a tag, an attribute name, the end of an attribute value, a comment or a declaration; raw HTML in the source comes out as escaped text.",
 ["inputs"], "every UTF-8 document, in particular HTML fragments and quote characters placed in every position a construct accepts text or a URL",
 "Tests compare a few fixed strings; that no string at all breaks out of its context (text, attribute value, footnote label, table cell, link title, code, ...) cannot be sampled by equality tests.",
 [PAR, TOK, LEX],
 [("escaping of every piece of document text", "gfm/src/lib.rs Parser::sanitize_display_text and its call sites"),
  ("encoding of URLs in attributes", "gfm/src/token.rs percent_encode, ValidURL Display")],
 ["the string returned by Parser::render, tokenised by an independent browser-style tokenizer"])

prop("C03", "Links and images never carry an executable URL",
 "For every document, no link or image in the output has a target that a browser would resolve to a javascript: URL or to a data: URL with content that is not an image, whatever the letter case, control characters, entities or construct used to write it. Such a link is shown as plain text instead. Every image with a source asks the browser not to send a referrer when it loads it.",
 ["inputs"], "every document; every spelling of a scheme in inline links, images and autolinks",
 "No test exercises the scheme filter with hostile spellings, and the filter must hold for all of them.",
 [TOK, LEX, PAR],
 [("scheme filter", "gfm/src/token.rs validate_link"), ("link and image lexing", "gfm/src/lexer.rs lex_links, lex_images, lex_side_carrot")],
 ["href and src attributes of the rendered HTML after the browser's URL preprocessing"])

prop("C04", "Link and image targets and labels come out as written",
 "For every inline link, image or autolink with an acceptable destination, the output has exactly one corresponding element whose target, after undoing percent-encoding and HTML escapes, is the destination as written (scheme, host, path, query and fragment; relative destinations stay relative; a bare e-mail autolink gets mailto:). Its label, alternative text and title are the ones written, and the text around it on the same line is unaffected.",
 ["inputs"], "every combination of destination (ASCII, no whitespace or parentheses), label, optional title and surrounding text",
 "The tests cover about a dozen autolinks and no inline link or image that passes; the claim ranges over all destinations and surroundings.",
 [TOK, LEX, PAR],
 [("destination split and re-assembly", "gfm/src/token.rs validate_link, ValidURL Display, percent_encode"), ("link lexing", "gfm/src/lexer.rs lex_links, lex_images, lex_side_carrot"), ("link emission", "gfm/src/lib.rs Token::Link and Token::Image arms")],
 ["a/img elements of the rendered HTML"])

prop("C05", "The output is always balanced, properly nested HTML",
 "For every document, each element opened in the output is closed, in the reverse order of opening, and nothing is closed that was not opened. Paragraphs, headings and inline elements never contain block elements, list items occur only in lists, and table parts only in tables.",
 ["inputs"], "every UTF-8 document, every order and adjacency of constructs, every unterminated construct at end of input",
 "Balance depends on the interplay of paragraph, list, quote, task-list and code state over arbitrary token sequences; tests cover a few adjacent pairs.",
 [PAR, LEX],
 [("open-block state machine", "gfm/src/lib.rs Parser::parse"), ("closing at end of input", "gfm/src/lib.rs Parser::parse tail")],
 ["element stack of the rendered HTML"],
 [("in_paragraph, in_ordered_list, in_unordered_list, in_task_list, quote_level", "which containers are open", "gfm/src/lib.rs Parser::parse")])

prop("C06", "No text is lost, duplicated, reordered or run together",
 "For every document, every word of its text appears in the output exactly once, in document order (footnote definitions are collected at the end), and words that were separated in the source stay separated. This includes text inside constructs that turn out to be malformed: the problematic part is included as text and rendering continues.",
 ["inputs"], "every document made of words placed among arbitrary, also malformed or unterminated, markup",
 "Conservation must hold on every path through the lexer, including each error path; tests assert a few happy paths and almost no malformed input.",
 [LEX, PAR],
 [("every lexing error carries the consumed source back as text", "gfm/src/lexer.rs ParseError content"), ("every token is emitted", "gfm/src/lib.rs Parser::parse"), ("default action on a parse error is to include the problematic part", "smd-core/src/config.rs ParseErrorAction::Serialize")],
 ["sequence of uniquely numbered words in the text and attribute values of the rendered HTML"])

prop("C07", "Text keeps its characters: escaping is exact",
 "In every text context (paragraph, heading, list item, task item, quote, table cell, emphasis, link label, summary, footnote) the characters of the source text, including & < > \" ' [ ] { } ( ) | ~ and all non-ASCII characters, are what a browser displays: decoding the output once gives the source text, neither unescaped nor escaped twice. A backslash before an ASCII punctuation character makes that character literal.",
 ["inputs"], "every text over the full Unicode range in every text context",
 "Needs every character in every context; the tests contain only a handful of special characters, mostly in paragraphs.",
 [PAR, LEX, ITER],
 [("single escaping per text run", "gfm/src/lib.rs sanitize_display_text"), ("backslash escapes", "gfm/src/lexer.rs lex_escaped_character")],
 ["decoded text content of the rendered HTML per block"])

prop("C08", "Code is reproduced verbatim and nothing in it is interpreted",
 "The content of every fenced code block, indented code block and code span appears in the output as code, character for character after HTML-decoding, with no markdown in it interpreted (tabs that indent code nested in a quote or list may come out as spaces). Text before and after the code is rendered as if the code were a single opaque element, and the language of a fenced block is only a label.",
 ["inputs"], "every code content (any characters except the closing fence itself) between backtick fences, in indented blocks and in code spans of running text, every language label, every surrounding block",
 "The tests check five one-line indented blocks; verbatimness quantifies over all contents and neighbours.",
 [LEX, PAR],
 [("fence and span matching", "gfm/src/lexer.rs lex_backticks"), ("indented code", "gfm/src/lexer.rs lex_tabs_spaces"), ("code emission", "gfm/src/lib.rs Token::Code and Token::CodeBlock arms")],
 ["code and pre elements of the rendered HTML"])

prop("C09", "Block structure of the output mirrors the document",
 "For every document composed of well-formed blocks, the output contains exactly one element per block, in order and of the right kind: a heading of level n for n hashes (1 to 6), one list item per item with nested unordered lists kept nested, a task box checked exactly when marked, a blockquote nested as deep as its markers, a rule per thematic break, a details section with its summary and content, and a table with exactly the source's rows, columns, alignments and cell texts. A heading has the identifier written at its end as {#id}, and none otherwise. Characters that start a block only do so at the start of a line.",
 ["inputs", "programs"], "every sequence of well-formed headings, paragraphs, lists, task lists, quotes, tables, rules, code blocks and details sections, with arbitrary sizes",
 "Quantifies over all compositions and sizes of blocks; tests cover each block mostly alone, and no table, quote or task list test passes today.",
 [LEX, PAR],
 [("block recognition", "gfm/src/lexer.rs next_token and lex_* functions"), ("block emission", "gfm/src/lib.rs Parser::parse")],
 ["element tree of the rendered HTML compared with the generated document tree"])

prop("C10", "Inline emphasis applies to exactly the delimited text",
 "For every line of text with properly delimited spans, *x* and _x_ become emphasis, **x** and __x__ strong, ***x*** both, ~~x~~ strikethrough and `x` code around exactly x, and all other text on the line stays unstyled, in paragraphs, headings and table cells alike.",
 ["inputs"], "every sequence of plain words and well-delimited spans of every kind and length",
 "Tests style one or two ASCII words per kind; the claim is about all sequences, contents and contexts.",
 [LEX, PAR],
 [("delimiter runs", "gfm/src/lexer.rs lex_asterisk_underscore, lex_tilde, lex_backticks"), ("inline emission", "gfm/src/lib.rs Parser::parse")],
 ["inline elements of the rendered HTML"])

prop("C11", "Blocks are rendered independently of their neighbours",
 "If two self-contained documents are joined by a blank line, the output shows the content of the first followed by the content of the second, exactly as when each is rendered alone, except that lists of the same kind on both sides of the seam, or quotes, may merge and footnotes move to the end. A block's rendering therefore never depends on what precedes or follows it.",
 ["inputs", "programs"], "every pair (and sequence) of self-contained documents, where a second part that starts with an indented line after a list or quote does not count as self-contained",
 "A relation between three renderings over all pairs of documents; no test compares renderings.",
 [PAR, LEX],
 [("all open-block state is closed at a blank line", "gfm/src/lib.rs Parser::parse"), ("block starts reset lexer context", "gfm/src/lexer.rs next_token")],
 ["element trees of render(A), render(B) and render(A + blank line + B)"])

prop("C12", "Footnote references and definitions link up",
 "For every document with footnotes, each definition appears exactly once at the end of the output (of its container, if it is nested in a quote, list or details section) with an identifier derived from its label, every reference to a defined label links to the identifier of the definition with that label, each definition's back link points at the identifier of its references, and distinct labels give distinct identifiers. A definition reaches over the lines after it that are indented by at least two spaces or a tab, and no further.",
 ["inputs"], "every set of labels, definitions and reference positions and orders",
 "No test covers footnotes at all.",
 [LEX, PAR],
 [("definition lexing", "gfm/src/lexer.rs lex_links"), ("reference and definition emission", "gfm/src/lib.rs Parser::parse")],
 ["id and href attributes of the rendered HTML"])

prop("C13", "Rendering is a pure function, also under concurrency",
 "Rendering the same document always gives byte-identical output: regardless of what was rendered before in the process, of other threads rendering at the same time, of the log level, of the environment and of the process. Concurrent rendering has no data race.",
 ["schedules", "histories", "configurations"], "every history of earlier calls, every interleaving of concurrent calls, every log level and environment",
 "Each test calls the renderer once and looks at one output; history, interleaving and log level are not varied.",
 [PAR, LEX, TOK, ITER],
 [("no shared mutable state in the renderer", "gfm/src")],
 ["history of (thread, document, output digest) events", "ThreadSanitizer and Miri reports"])

prop("C14", "A reported successful write means the file holds every byte",
 "Whenever writing a text or binary file reports success, the file contains exactly the given bytes; whenever the bytes cannot all be written (short writes, full disk, size limits, interrupted calls, missing directory, permissions) the call reports an error. Reading back returns exactly what was written, and reading a missing, unreadable or non-UTF-8 file is an error, never altered text.",
 ["fault_sequences", "inputs"], "every content (empty to many megabytes) and every sequence of short writes, interruptions and errors at the system-call boundary",
 "Tests write one 12-byte string to a healthy disk; faults at the system-call boundary never occur in them.",
 ["smd-core/src/fs.rs"],
 [("file output", "smd-core/src/fs.rs write_to_file, write_bytes"), ("file input", "smd-core/src/fs.rs read_to_string, decode_from_file")],
 ["return value, file bytes, and the log of write system calls as seen by an interposed libc"])

prop("C15", "HTML conversion writes exactly the rendering, next to the input",
 "A successful `smd parse -i FILE -o html` exits 0 and leaves beside FILE one file, named like FILE (with symbolic links resolved) with the extension html, whose bytes are exactly the rendering of FILE's content; FILE itself and every other file stay untouched, and nothing is written to standard output. This holds for every file name, directory, working directory, verbosity, environment log setting, symlinked input and previously existing output.",
 ["inputs", "configurations", "histories"], "every input content, path shape, working directory, verbosity, environment and prior directory content",
 "No test runs the command line program; paths, repeated runs and pre-existing outputs are never varied.",
 ["smd/src/lib.rs", "smd/src/main.rs", "smd/src/args.rs", "smd-core/src/fs.rs"],
 [("output path and dispatch", "smd/src/lib.rs run"), ("input path expansion", "smd/src/args.rs Cli::parse_dir")],
 ["exit status, stdout, stderr and a before/after snapshot of the directory tree"])

prop("C16", "A failed run says so and destroys nothing",
 "If a run cannot do what was asked (missing, unreadable, non-UTF-8 or directory input, invalid configuration, unwritable or full output, browser unavailable or failing at any step), the program exits with a non-zero status and an error message on standard error (unless logging was filtered off). It never modifies or removes the input, and failures before the output is written leave existing files as they were and create none.",
 ["fault_sequences", "inputs", "configurations"], "every failing step of every command, with or without pre-existing outputs",
 "No test runs a failing command; partial effects on the file system are never observed.",
 ["smd/src/lib.rs", "smd/src/main.rs", "smd-core/src/fs.rs", "smd-core/src/convert.rs", "smd-core/src/config.rs"],
 [("error propagation to the exit code", "smd/src/main.rs main"), ("order of reading, converting and writing", "smd/src/lib.rs run")],
 ["exit status, stderr and a before/after snapshot of the directory tree under injected faults"])

prop("C17", "PDF conversion prints this document and leaves no residue",
 "A successful PDF run makes the browser load a page whose bytes are exactly the rendering of the input, and writes exactly the bytes the browser returned beside the input with extension pdf. Success or failure, at whatever step the browser fails, no temporary file remains, no file of the user (in particular one that happens to have the name of the temporary file) is overwritten or removed, and concurrent runs in the same directory each print their own document.",
 ["fault_sequences", "schedules", "inputs"], "every browser failure point, every interleaving of concurrent runs, every working directory name and prior content",
 "The three browser tests need a real Chrome, fail in this environment, and look at neither temporary files nor the page that was loaded.",
 ["smd-core/src/convert.rs", "smd-core/src/browser.rs", "smd/src/lib.rs", "smd-core/src/fs.rs"],
 [("temporary page", "smd-core/src/convert.rs PDFConverter::from_html"), ("browser session", "smd-core/src/browser.rs BrowserSession"), ("output", "smd/src/lib.rs run")],
 ["event log of a stand-in browser speaking the DevTools protocol, and directory snapshots"])

prop("C18", "Configuration: created once, never overwritten, validated, overridable",
 "`smd initialize` creates the configuration file, with missing parent directories, holding the default settings, and reading it back gives those defaults; if a file already exists there it fails and leaves it byte for byte as it was, also when several runs start at once. Every configuration text is either rejected with an error or yields exactly the settings written in it (a missing one may be an error or its default), each overridden by its SMD__PARSE__* environment variable when set; without a file the defaults apply, and one that is there but cannot be read is an error.",
 ["inputs", "configurations", "histories", "schedules"], "every configuration text, environment and prior state of the configuration directory, and concurrent initialisation",
 "Tests parse one valid and one invalid text; initialisation, overwriting, environment overrides (that test is commented out) and the on-disk round trip are untested.",
 ["smd-core/src/config.rs", "smd/src/lib.rs"],
 [("parsing and precedence", "smd-core/src/config.rs Config::parse_from_str, load_config"), ("creation", "smd-core/src/config.rs Config::initialize")],
 ["settings returned, exit status, and bytes of the configuration file"])

prop("C19", "The command line does what its help says",
 "Every documented command, flag and option is accepted in every documented spelling and position and has the documented effect: the help flag prints the help, the version flag prints the version, verbosity only changes what is logged on standard error (and a log filter in the environment is honoured when no verbosity flag is given), a tilde at the start of the input path means the home directory and every other character of it itself, the output format defaults to pdf, and invalid usage is rejected with a non-zero status and no side effect. The generated man page names every command and global flag, the shell completions every command and option the program accepts.",
 ["configurations", "inputs"], "every combination and order of commands, flags, options and relevant environment variables",
 "Tests check the argument definition for internal consistency and one tilde expansion; the program is never run.",
 ["smd/src/args.rs", "smd/src/main.rs", "smd/src/logger.rs", "smd/src/bin/mangen.rs", "smd/src/bin/completion.rs"],
 [("argument definition", "smd/src/args.rs Cli"), ("log level selection", "smd/src/main.rs main"), ("logger", "smd/src/logger.rs init")],
 ["exit status, stdout, stderr, directory snapshots, generated files"])

prop("C20", "The npm package runs the right binary with the caller's arguments",
 "On every platform and architecture the npm package runs the executable of the matching platform package (smd-<os>-<arch>/bin/smd, os being windows and the file smd.exe on Windows and Cygwin), or fails with an error naming os and architecture when that package is not installed. The executable gets exactly the caller's arguments in order: an array of strings as it is; of an options object, a flag for every true, a flag followed by the value for every string, such a pair for every element of an array, and nothing for false, null and undefined, with names in hyphen case. Working directory, environment and output go through as the caller says, the call succeeds exactly when the executable does, and the command ends with status zero exactly when the executable does.",
 ["inputs", "configurations"], "every options object and argument list, every platform and architecture, every way the executable ends",
 "The npm package has no tests at all.",
 ["npm/smd/src/index.ts", "npm/smd/src/optionsToStringArgs.ts", "npm/smd/src/getExePath.ts", "npm/smd/src/cli.ts"],
 [("locating the binary", "npm/smd/src/getExePath.ts getExePath"), ("options to arguments", "npm/smd/src/optionsToStringArgs.ts"), ("running", "npm/smd/src/index.ts runGitCliff"), ("command", "npm/smd/src/cli.ts run")],
 ["argument vector, directory, environment and status recorded by a stand-in executable"])

prop("C21", "A release keeps all versions in step and ships complete packages",
 "For every tag [v]X.Y.Z (with or without pre-release part), a successful `release.sh TAG` is exactly one commit on top of the current one, with the signed, annotated tag TAG on it. In it every crate of the workspace, every dependency of one of them on another, the npm package and each of its platform packages has exactly the version X.Y.Z, the workspace resolves, the changelog is the one git-cliff made for TAG, the tag's message has the changes since the last release, and nothing else is changed. Without a tag the script changes nothing; then, and whenever a step fails, its status is not zero and no tag is made or moved. The packaging steps of the release workflow publish exactly the platform packages the npm package depends on, each with the binary of its platform and architecture where the npm package looks for it, and put program, licence, readme, changelog, man page and completions in the archives.",
 ["inputs", "histories", "fault_sequences"], "every tag, every sequence of releases, every step of the script that can fail, every build of the workflow's matrix",
 "Nothing tests the release script or the packaging; their mistakes show when a release is out.",
 ["release.sh", ".github/workflows/release.yaml", "npm/package.json.tmpl", "npm/smd/package.json"],
 [("versions, changelog, commit and tag", "release.sh"), ("platform packages and archives", ".github/workflows/release.yaml publish-binaries"), ("template of the platform packages", "npm/package.json.tmpl")],
 ["commits, tags and files of a scratch clone, what cargo makes of the tagged tree, calls and packages recorded by stand-ins for git-cliff, gpg and npm"])

prop("C22", "Lines of a paragraph stay together and break only where asked",
 "For every paragraph, at top level or in a quote, list item or details section, its lines appear in one paragraph, in order and separated by white space, however they are indented. Between two lines there is a line break exactly if the first of them ends in two or more spaces or in a backslash that is not itself escaped; the spaces or the backslash that ask for it are not shown. At the end of a paragraph or heading there is no break: spaces are dropped and a backslash is shown. Nothing else makes a line break.",
 ["inputs"], "every number of lines, every line ending with any inline element, spaces, tabs and backslashes, every container and every block that follows",
 "Tests have one hard break of each kind in a plain paragraph; other line contents, containers and what follows are not combined.",
 ["gfm/src/lexer.rs", "gfm/src/lib.rs", "gfm/src/token.rs"],
 [("backslash at the end of a line", "gfm/src/lexer.rs Lexer::lex_escaped_character"), ("spaces and newlines between inline elements", "gfm/src/lib.rs push_html")],
 ["element tree of the rendering: paragraphs, br elements and text between them"])

prop("C23", "Content means the same inside a container as on its own",
 "Every document without tabs that leaves nothing open at its end has the same element tree and text, inside the elements of the container, when it is put in a quote (each line behind `> `, or behind a run of n marks for n nested quotes), in an item of an unordered list (lines indented to the first one, which is not blank or indented and does not become a task or rule with the marker), in a details section, or in any nesting of these up to the renderer's limit of depth. And every document has the same output with LF, CRLF or CR line endings or any mixture of them, and, if it leaves nothing open, the same tree with or without a final newline and with blank lines in front of it or behind it.",
 ["inputs"], "every document, well-formed or not, and every nesting of containers around it",
 "Tests render constructs at top level, with few exceptions; none compares a document with the same one in a container or with other line endings.",
 ["gfm/src/lexer.rs", "gfm/src/lib.rs"],
 [("quotes", "gfm/src/lexer.rs Lexer::lex_blockquotes"), ("list items", "gfm/src/lexer.rs Lexer::lex_list_entry"), ("details", "gfm/src/lexer.rs Lexer::parse_details"), ("line endings", "gfm/src/lib.rs Parser::render")],
 ["element trees of the renderings of the document alone and in the containers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
