prop("P01", "Every text is converted or rejected; nothing crashes, hangs or exits",
     "For every text, parsing it either gives a document or an error. A document that was parsed can always be "
     "serialised, counted and rendered to HTML, and rendering it to docx gives a file or an error. Nothing panics, "
     "fails to end, overflows the stack or ends the process.",
     ["inputs"],
     "all texts: every sequence of up to 4 (thorough 5) characters over one of every character with a meaning, "
     "every sequence of up to 3 (4) of 92 markup fragments, of up to 7 (8) of six symbols that belong together (20 such "
     "alphabets), up to 600 (3000) repetitions of each fragment, and images that are missing, not images, or cut off",
     "The tests parse some two hundred well-formed samples; an unfinished construct, an unusual neighbour or a long "
     "repetition is a different input each time.",
     [SCAN, PARSE, BLOCKS, INLINES, HTML, DOCX],
     [("scanner look-ahead and look-behind", SCAN), ("block and inline stacks", PARSE),
      ("unwrap, todo! and unreachable! in the graph", BLOCKS)],
     ["Parser::parse", "serde_json of the graph", "Asg::word_count", "render_htmlbook", "render_docx"],
     "Exhaustive over the stated alphabets and lengths, executed in worker processes so that hangs, aborts and exits "
     "count; longer texts are covered only by repetition.")

prop("P02", "Scanning loses nothing: tokens tile the source and know where they are",
     "For every text the scanner accepts, the texts of its tokens, put one after the other, are the source, with "
     "exactly one end token at the end. Each token's line is the line its text starts on and its column the byte "
     "column, both counted from one. Only headings more than five levels deep are refused; what "
     "surrounds a tag directive on its own line may be left out.",
     ["inputs"],
     "all texts: every sequence of up to 4 (5) characters, of up to 3 (4) markup fragments, and of up to "
     "7 (9) of six symbols that belong together (20 such alphabets)",
     "Each unit test of the scanner looks at one or two tokens; a character lost between two particular tokens, or a "
     "column off after a particular token, needs that pair.",
     [SCAN, "src/scanner/tokens.rs"],
     [("token building and column bookkeeping", SCAN), ("peeking, backing up and skipping", SCAN)],
     ["Scanner as an iterator of tokens"],
     "Exhaustive over the stated alphabets and lengths. One known finding: the newline right after a description "
     "list marker is not counted, which the repository's own fixtures expect.")

prop("P03", "Blocks come out as written: each kind, in order, inside what encloses it",
     "For every document built of blocks separated by blank lines, the parsed document has those blocks, each of the "
     "kind it was written as, with the text it was written with, in the order and inside of the delimited block "
     "or attached to the list item it was written in. Comments leave nothing behind. A missing line break at the end of the document changes nothing, "
     "nor does leaving out the blank lines between delimited blocks.",
     ["inputs", "programs"],
     "all documents of up to 3 (4) blocks over 27 kinds of block; up to 2 (3) blocks in each delimited block, chains "
     "of up to 4 delimited blocks, up to two blocks attached to list items, runs of up to 40 blocks of each kind, the five admonitions",
     "Tests have one fixture per kind of block; which block follows or encloses which is a product they do not walk.",
     [PARSE, BLOCKS],
     [("block stack: opening, closing and flushing", PARSE), ("delimiter matching", PARSE),
      ("blocks built from tokens", BLOCKS)],
     ["the graph's JSON"],
     "Every case is executed on the real parser and compared with the tree of the abstract document it was written "
     "from; exhaustive within the bounds.")

prop("P04", "Headings open sections that nest by level, with offsets and limits applied",
     "A heading opens a section of its level, shifted by the level offset in force, and everything up to the next "
     "heading of the same or a higher rank belongs to it. A level offset replaces the one before or, when signed, is "
     "added to it. Its title is the rest of its line, whatever that looks like. A document title anywhere but at the start, and a level outside of one to four, are errors.",
     ["inputs", "programs", "histories"],
     "all sequences of up to 5 (6) headings of four levels with or without text, every pair of blocks in and before "
     "sections, runs of up to 60 headings, all sequences of up to 3 (4) offset settings and headings, with and without a document title; titles of up to 3 (4) of 18 pieces that look like markup",
     "Tests have a few nested sections; which sections close at a heading depends on all the headings before it.",
     [PARSE, SCAN, BLOCKS],
     [("section closing", PARSE), ("level offset", PARSE), ("heading levels", SCAN)],
     ["the graph's JSON", "parse errors"],
     "Compared with a ten line reference that nests a flat list of headings; exhaustive within the bounds.")

prop("P05", "List items join the list their marker continues; new markers nest",
     "An item continues the innermost open list that has its marker (bullets, numbers, terms or callouts), closing "
     "the lists inside of it, and otherwise opens a list inside the item before it. A block attached by a "
     "continuation belongs to the item it follows. Each item keeps its own text, over one or more lines.",
     ["inputs", "programs"],
     "all sequences of up to 8 (10) items over the four kinds of list, up to 3 (4) items with up to two attached "
     "blocks each, every pair of blocks attached at each position, lists inside every delimited block and section, "
     "lists in blocks in items, three (four) lists deep; texts on the line after their term; lists of up to 35 items, callout lists of up to 12; texts of up to 3 (4) of 18 pieces that look like markup",
     "Which list an item joins depends on every item before it; tests have a handful of lists.",
     [PARSE, LISTS],
     [("list item placement", PARSE), ("list continuation", PARSE), ("description list terms", PARSE)],
     ["the graph's JSON"],
     "Compared with a reference that nests items by the markers of the lists that are open; exhaustive within the "
     "bounds.")

prop("P06", "Verbatim blocks keep their lines exactly, whatever they look like",
     "The text of a listing, source, literal or passthrough block is the lines between its delimiters, character "
     "for character, and what they look like affects neither the block nor anything around it. Only a number in "
     "angle brackets at the end of a listing's line is a callout. In HTML that text is escaped for listings and "
     "literals and untouched for passthroughs. A verse keeps its lines too, and what looks like a block in it is text.",
     ["inputs", "programs"],
     "all blocks of up to 2 (3) lines over 61 lines that look like every other construct, and of up to 3 (4) "
     "characters, in ten places (attached to list items, in delimited blocks, in sections...), up to 33 lines; verses of up to 3 of 30 lines "
     "that look like blocks, closed or not; callouts from 0 to 130 (1300) and larger",
     "Fixtures have one or two listings with code in them; the text that looks like markup is what breaks.",
     [PARSE, SCAN, BLOCKS, HTML, TERA],
     [("tokens passed through as text", PARSE), ("callouts", SCAN), ("escaping", HTML)],
     ["the graph's JSON", "render_htmlbook"],
     "Exhaustive within the bounds; the expected text is the source itself.")

prop("P07", "Comments leave nothing behind",
     "A document with comment lines, or with comment blocks between its blocks or ahead of what a title or an id is about, is the same document as without "
     "them, whatever the comments say and wherever outside of verbatim blocks and tables they are. A comment block "
     "that is never closed goes on to the end of the document.",
     ["inputs", "programs"],
     "a comment line ahead of every line of every pair (triple) of 27 kinds of block; 110 comment texts, and two or "
     "three comment lines, ahead of every line of 14 documents; comment blocks in all places where a block can be, "
     "with and without empty lines around, one or two in a row, between list items, and between titles, ids and lists of attributes and the 27 kinds of block they are about",
     "Comments can be at any line of any document; the tests have two fixtures.",
     [SCAN, PARSE],
     [("comment tokens and the newline after them", PARSE), ("comment blocks", PARSE)],
     ["the graph's JSON"],
     "The oracle is the implementation's own result without the comments, whose correctness P03 and others decide.")

prop("P08", "Formatting marks that pair up enclose what is between them; others are text",
     "A constrained mark pairs up with the next of its kind as the language defines (no word character outside, no "
     "space inside), a doubled mark does so anywhere, spans nest, and a style in front applies to its span alone. "
     "Marks that do not pair up are text. A plus after a blank at the end of a line is a line break, and what is in pass:[] is passed on as it is. "
     "This is so in every place that has inline text, however deep, and the same in HTML.",
     ["inputs", "programs"],
     "all texts of up to 8 (10) characters over a mark, a letter and two of 16 other characters; all sequences of up to "
     "3 (4) of 21 inline constructs with four separators; pairs of them in 19 places, and in 39 further down in lists, blocks and sections; all chains of up to 3 (4) spans; up to 3 (4) line breaks, passthroughs, footnotes and images next to seven separators; 21 inline constructs in 15 others, on the same line or the next, and in the lines of verses; all texts of up to 6 (8) characters with one kind of mark inside eleven others",
     "What a mark does depends on its neighbours and on what is open; fixtures have a few spans each.",
     [SCAN, PARSE, INLINES, TERA],
     [("constrained and unconstrained marks", SCAN), ("open spans", INLINES), ("unclosed spans", INLINES)],
     ["the graph's JSON", "render_htmlbook"],
     "Marks of one kind are compared with a direct transcription of the language's definition; everything else with "
     "the abstract text it was written from.")

prop("P09", "No word of the text is lost, repeated or out of order",
     "Every word of a document's text, that is outside of comments, attribute entries and lists, the targets "
     "of macros and titles that nothing has, comes up exactly once in the graph and in HTML, in the order of the source, whatever markup is "
     "around it, well formed or not.",
     ["inputs", "programs"],
     "all sequences of up to 3 (4) of 95 pieces of markup, each followed by a word of its own, with and without a "
     "word ahead of them, and alternations of two pieces 4 and 9 times; 16 near misses of references, entries and macros next to each piece; in HTML sequences of up to 2 (3)",
     "Whether a combination of open blocks, spans and lists drops its text depends on the whole history of tokens.",
     [PARSE, SCAN, BLOCKS, INLINES, LISTS, HTML],
     [("inlines left on the stack", PARSE), ("attaching inlines to blocks", BLOCKS), ("unclosed spans", INLINES)],
     ["the graph's JSON", "render_htmlbook"],
     "Exhaustive within the bounds; a document may be rejected, but not by losing text silently.")

prop("P10", "An attribute reference is replaced with the value that was set last",
     "A reference to a document attribute, wherever inline text is, is replaced with the value of the last entry "
     "ahead of it, exactly as written. References to unset attributes, and text that only looks like a reference, "
     "are left as they are, and so are references in listings and literals.",
     ["histories", "inputs"],
     "all histories of up to 5 (6) entries and uses of two attributes, with and without a document title; 20 values "
     "in 19 places, each written nine ways; all names of up to 4 (5) characters over a 1 - _ é B; look-alikes of references and of entries; values in 30 places further down",
     "The value depends on the history of entries; fixtures set each attribute once.",
     [PARSE, SCAN, ASG],
     [("document attributes", PARSE), ("attribute references", SCAN)],
     ["the graph's JSON", "render_htmlbook"],
     "Values are plain text here: the implementation does not look for markup or references inside of them.")

prop("P11", "Including a file is the same as having written its contents there",
     "A document that includes an AsciiDoc file between blank lines, inside a block, in a section or attached to a "
     "list item has the same structure and text as one with the file's blocks in that place. Paths are relative to "
     "the file that includes. A level offset given in an include shifts the file's headings and nothing after it. Attributes "
     "go in and come out. A file that is missing, is not text, or includes itself is an error.",
     ["inputs", "programs", "faults"],
     "all 27 kinds of block in the file with every kind before and after; all pairs (triples) of blocks; every kind, "
     "and pairs, in five kinds of block, three of list item and a section; chains of up to 4 (5) files, each in the "
     "same, a lower, a sister or the parent directory, among decoys of the same name; headings of up to 3 (4) "
     "sections with three outer and six given offsets; all offsets in chains of up to 4 (5) files; up to 200 includes; 18 kinds of failure",
     "Includes combine with everything else, and the tests have a handful of fixtures.",
     [PARSE, SCAN],
     [("included tokens", PARSE), ("resolving targets", PARSE), ("level offsets", PARSE)],
     ["the graph's JSON", "the error of Parser::parse"],
     "The oracle is the model document with the file's blocks in place. Sections opened in a file end with it, as the "
     "repository's tests expect, so that headings are compared where they nest the same way.")

prop("P12", "An include takes exactly the lines it asks for",
     "An include with lines or tags takes exactly the lines in the given ranges, or between the given tags' "
     "directives, and never a directive itself; anything else in the file has no effect. Code included in a "
     "listing is there character for character, save for callouts, with or without a final newline.",
     ["inputs"],
     "all pairs of single, closed and open ranges over files of 1 to 5 (7) lines, separated both ways; ranges over all "
     "documents of up to 4 (5) of eight lines; over all pairs (triples) of 58 lines that look like markup; all "
     "files of up to 5 (6) lines of text and directives of two tags, selected six ways, in six comment styles; any order of up to four tags, given both ways; all "
     "texts of up to 3 (4) of 16 characters",
     "Which line a token belongs to depends on everything ahead of it in the file.",
     [PARSE, SCAN, "src/utils.rs"],
     [("selected lines", PARSE), ("ranges", "src/utils.rs"), ("tags", SCAN)],
     ["the graph's JSON"],
     "Documents are compared with a file that has just those lines; code with the lines themselves. One empty line "
     "after an include in a listing is tolerated, since the repository's tests expect it.")

prop("P13", "A table has exactly the cells written in it, in rows as wide as its columns",
     "The cells of a table are those written in it, in order, however they are laid out on lines, and are grouped in "
     "rows of as many as there are columns, which the cols attribute gives or else the first line does. The first "
     "row is the header only if it is marked so by its layout. What is in one cell has no effect on the others.",
     ["inputs"],
     "tables of up to 6 (8) cells, each after a space, a line break or an empty line, with 16 ways of giving columns, "
     "with and without a leading empty line; sizes up to 12 by 12; all patterns of empty cells; every inline element "
     "in every cell; all triples of 44 contents; texts of up to 3 (4) of 18 pieces that look like markup; cells of several lines; two tables in a row",
     "Layout, columns and contents are independent of each other, and their combinations are many.",
     [PARSE, SCAN, BLOCKS, HTML],
     [("cells", PARSE), ("columns and header", BLOCKS), ("rendering rows", TERA)],
     ["the graph's JSON", "render_htmlbook"],
     "The oracle is the abstract grid the source was written from.")

prop("P14", "A cross reference links to what has the id, and shows its title",
     "A reference to the id of any block or section, from any place inline text can be, ahead of it or after it, "
     "becomes a link to that id with the title of what it refers to, or no text of its own if that has no title; in HTML "
     "there is exactly one element with the id. Ids are taken as written, and text that only looks like a reference "
     "is left as it is.",
     ["inputs"],
     "all 27 kinds of block in 10 places, referred to from 19 places, titled or not, before and after; sections of "
     "all levels; several references and targets; references in spans, links and footnotes; all ids of up to 3 (4) of 10 "
     "characters; ids given as anchors and as attributes; look-alikes; all kinds referred to from 39 places in lists in lists, lists in blocks and the like, and between any two of those",
     "A reference meets its target at a distance, with everything in between.",
     [PARSE, ASG, INLINES, META, HTML],
     [("resolving references", ASG), ("the ids of blocks", META), ("rendering links", TERA)],
     ["the graph's JSON", "render_htmlbook"],
     "References with a text of their own are not supported by the implementation, as its list of limitations says.")

prop("P15", "Every footnote is kept in its place and numbered in order",
     "Each footnote is in the graph exactly where it is in the text, with its content parsed as inline text. "
     "Standardising footnotes replaces each of them with a reference numbered in the order of the document, "
     "which links to a definition with its content at the end, and back; nothing else changes.",
     ["inputs", "programs"],
     "footnotes in every place for inline text of all 27 kinds of block, all pairs (triples) of kinds, in five "
     "containers, list items and sections, and lists in lists, any two of 30 places further down; first, last and next to nine characters; all inline elements as contents; up to 900 footnotes",
     "Numbering is a traversal of the whole graph, which has to meet each kind of node in order.",
     [ASG, BLOCKS, INLINES, LISTS, PARSE],
     [("standardize_footnotes", ASG), ("extracting footnotes", BLOCKS), ("footnote macros", PARSE)],
     ["the graph's JSON before and after Asg::standardize_footnotes", "render_htmlbook"],
     "The oracle numbers the footnotes of the abstract document.")

prop("P16", "Ids, roles, titles and attributes are on the block after them, and only there",
     "Whatever is given ahead of a block, in whichever order and however it is spread over lines, is on that block: its id, "
     "all of its roles in order, its title, and each positional or named attribute with exactly its value. No other "
     "block has any of it, and what is left over at the end of a block or of the document is on none.",
     ["inputs", "programs"],
     "all subsets and orders of a style, an id, two lists of roles, a title and an attribute, with four kinds of lines in "
     "between, for each kind of block; all pairs of kinds, also in five kinds of block, three of list item and "
     "sections, with six combinations of those; right after another block; titles of up to 3 (4) of 18 pieces that look like markup; sections of all levels; leftovers in all blocks and orders; all "
     "lists of up to 3 (4) of 25 attributes, of four styles; up to 300 roles and attributes",
     "What is pending is state that every kind of block, opening or closing, has to treat the same way.",
     [PARSE, META, BLOCKS, "src/utils.rs"],
     [("pending titles and metadata", PARSE), ("attribute lists", "src/utils.rs"), ("attributes to metadata", META)],
     ["the graph's JSON", "render_htmlbook"],
     "The oracle is the abstract document that has them in place. Breaks have no titles, and sections only their own.")

prop("P17", "The HTML is a well-formed page with each block as its element, nested as written",
     "Whatever is in a document, its HTML is one well-formed page: elements are closed in the order they were opened, text "
     "and attribute values are escaped, and the title is plain text. Its body has, in order, the element for each block "
     "with that block's id, roles, title and text, and what is inside a block, list item or section is inside its element.",
     ["inputs", "programs"],
     "all sequences of up to 2 (3) blocks of 27 kinds, with and without id, role and title; pairs of kinds in five blocks, "
     "each in blocks in blocks and in three kinds of list item; the ways three kinds of list nest; sections of all levels; admonitions of "
     "any block; titles of 21 inline elements; quotes and verses with attribution, id, role and title; characters that mean something in HTML in every slot; 46 references in 19 places; verses, line by line; what looks like an element in all texts of up to 3 (4) of 18 pieces of markup; all texts of up to "
     "2 (3) of 95 pieces of markup for well-formedness; all but those in documents with and without a title and attributes",
     "The templates have a branch for every kind of block and call one another; the fixtures render few of the pairs.",
     [HTML, TERA, ASG],
     [("rendering", HTML), ("templates", TERA)],
     ["render_htmlbook"],
     "The oracle writes the element for each block of the abstract document itself. White space between elements is ignored.")

prop("P19", "Every block and piece of text says where in the source it is",
     "The location of a block is the lines it was written on, from its first to its last character; blocks in another are "
     "within its location and follow one another; and the location of a text, a formatted span, a link or a footnote is "
     "exactly the part of the source it was written as. Lines ahead of a block move its lines and nothing else.",
     ["inputs", "programs"],
     "all sequences of up to 3 (4) blocks of 27 kinds, pairs with metadata lines ahead; in five blocks and in three kinds "
     "of list item; lists of up to 6 (8) items; up to 5 (6) lines ahead of a term; sections of all levels; up to 2 (3) of 21 inline elements in 19 places; "
     "after seven kinds of lines; document titles of up to 3 inline elements; all texts of up to 3 (4) of 95 pieces of markup for nesting and order",
     "Each kind of block closes in its own way, at its delimiter, at the next block or at the end of its list.",
     [PARSE, SCAN, BLOCKS, INLINES, LISTS],
     [("locations of blocks", PARSE), ("locations of tokens", SCAN), ("locations of inlines", INLINES)],
     ["the locations in the graph's JSON"],
     "The oracle is the writer of the source, which knows the line it puts each block on. Columns count bytes.")

prop("P18", "The same document gives the same output, whatever was converted before it",
     "Parsing, serialising and rendering depend on the document and nothing else: the JSON, the HTML, the word count and the "
     "contents of the Word document are the same, byte for byte, in every process, after any other documents in the same "
     "process, and (without includes or images) wherever the file is. Rendering leaves the graph as it was.",
     ["histories", "programs"],
     "52 documents (all 27 kinds of block, and 25 with many attributes, ids, references, footnotes, roles, lists and includes), each "
     "in 6 (40) fresh processes, after each of the others, after every two of 16 (all) special ones, and at five paths; numbers that the "
     "Word library counts up over a process's life are left out",
     "Hash maps are ordered differently in each process; a test runs in one, and converts one document.",
     [PARSE, ASG, BLOCKS, INLINES, MACROS, HTML, DOCX],
     [("maps of attributes and ids", META), ("ids of documents, numbering of footnotes", ASG), ("template and list numbering", DOCX)],
     ["serde_json of the graph", "render_htmlbook", "render_docx", "Asg::word_count"],
     "Orders of hash maps are not enumerated but drawn by each process's own seed, so a difference in the order of two keys is found with probability 1 - 2^-5 or so per run "
     "of a document that has only two, which is why the documents have ten or more; the histories are exhaustive.")

prop("P20", "The Word document has every block and all of its text, in the style of its kind",
     "For every document built of blocks, the Word document made of it has the paragraphs, tables, images and breaks for each of its blocks, in "
     "order, each in the paragraph style of its kind, with its title, attribution and citation ahead of or behind it, and its text with bold, italic, monospace, highlight, "
     "super- and subscript exactly where they were written. Every list is numbered or bulleted and starts over at one; every style and numbering that is "
     "referred to is defined.",
     ["inputs", "programs"],
     "all sequences of up to 2 (3) blocks of 27 kinds, with and without titles; in five containers, three deep, and attached to list items; lists of up to 5 (7) items; "
     "sections of all levels, up to 5 (6) of them with or without text; up to 6 (12) blocks attached to an item; up to 100 (400) blocks; quotes and verses with attribution and citation; document titles; pairs of 21 inline elements in 19 places; spans nested up to 3 (4) deep; "
     "line breaks in them; blanks at the ends of lines; tables of up to 100 columns and 11 rows, the last one whole or not; any text in verbatim blocks",
     "The tests of the renderer look at the structures handed to the library for a handful of documents.",
     [DOCX, "src/backends/docx/numbering.rs", "src/backends/docx/styles.rs", BLOCKS],
     [("paragraph styles", DOCX), ("numbering of lists", DOCX), ("runs", DOCX)],
     ["render_docx, unpacked and read back"],
     "Lists inside of list items come out as plain continued paragraphs, as documented in the code, and are expected so.")

prop("P21", "The program writes the output it was asked for, and nothing else",
     "For every document, way of naming it and choice of options, the program exits with 0 and the file or standard output "
     "that was asked for has exactly what the library makes of the document, or with another code and a message on standard "
     "error, in which case no file is changed. It never changes its input, and never panics.",
     ["inputs", "faults", "programs"],
     "11 documents (valid, invalid, empty, not UTF-8, missing, a directory, ...) in 18 ways of naming them, with every backend and combination of flags and "
     "12 kinds of output (standard output, new, existing, in a missing directory, a directory, the input, ...); other spellings of options, invalid usage, standard output that is full",
     "The repository has no tests of its program at all.",
     [CLI, "src/bin/asciidocr/cli.rs"],
     [("choice of output", CLI), ("reading the document", CLI), ("reporting errors", CLI)],
     ["exit code, standard output and error, and the scratch directory before and after"],
     "Run in a scratch directory of its own. The oracle for contents is the library, which the other properties are about.")

prop("P22", "The words that are counted are the words of the text",
     "The word count of a document is the number of words, separated by blanks or line breaks, in the text of its blocks: paragraphs, verbatim blocks, list items, terms, cells, "
     "captions, titles of blocks and sections, notes and the texts of links. Words of different blocks, cells, items and notes are never run together. The document title, comments, attribute "
     "entries and lists, ids, targets and marks are not counted. The text gathered for it has those words in reading order, and so have the inline nodes listed for each block.",
     ["inputs", "programs"],
     "all sequences of up to 3 (4) blocks of 27 kinds with and without titles; in containers, list items and sections; up to 2 (3) of 21 inline elements in 19 places, and in links and notes there; line breaks and footnotes on words; "
     "up to 600 (5000) words apart in nine ways; words between up to 3 (4) of 95 pieces of markup; five kinds of header",
     "No test counts words.",
     [ASG, BLOCKS, INLINES],
     [("gathering the text of blocks", BLOCKS), ("gathering the text of inlines", INLINES), ("counting", ASG)],
     ["Asg::word_count", "Asg::all_text", "Block::inlines"],
     "The oracle gathers the words from the model the source was written from. Character references are left as they are.")

prop("P23", "Symbols written in plain characters become those symbols, in text and only there",
     "In text of any block, title, cell, term or note, formatted or not, (C), (R), (TM), ->, =>, <- and <= become the symbols they stand for; two hyphens ahead of a word, a blank or the end "
     "of the line become a dash; the apostrophe of an 's at the end of a word becomes a typographic one; and quotes with backticks inside (\"`so`\" and '`so`') become typographic quotes when they pair up outside of words. "
     "Character references such as &lt; stay what they refer to, in HTML and Word documents. In verbatim and passed-through text nothing is replaced.",
     ["inputs", "programs"],
     "15 symbols in 19 places (and 39 further down) with 5 x 6 surroundings, first and last, up to 2 (3) of them after one another, up to 64 of two kinds in a text, in nine kinds of formatting, in Word documents and in verbatim text; 44 character references next to and in formatting; 13 that only look like one; all sequences of up to 4 (5) of 17 "
     "characters that might be symbols and of up to 6 (7) of 7 that might be quotes",
     "Tests have each symbol alone, at the start of a text.",
     [SCAN, "src/scanner/tokens.rs", "src/graph/substitutions.rs", INLINES],
     [("recognising symbols", SCAN), ("what they stand for", "src/scanner/tokens.rs"), ("references in Word documents", "src/graph/substitutions.rs")],
     ["the graph's JSON", "render_htmlbook", "render_docx"],
     "Three dots are replaced only right after other markup, which a fixture of the repository expects, and are left out.")

prop("P24", "Links and images lead to exactly the target that was written",
     "A link with text in brackets has everything from http:// or https:// to the bracket as its target, and the text, with its formatting, as its text. A bare URL is a link to itself, without punctuation and marks at its end; all that follows it "
     "stays text. An image has the target and the alternative text, by position or by name, that were written. This is so in the graph and, properly escaped, in HTML. Words like http, httpd or image: that have no target are text.",
     ["inputs"],
     "all targets of up to 3 (4) of 26 pieces (in HTML 2 (3)) in six forms; texts of up to 2 (3) of 21 inline elements in 19 places, one in 39 further down; in and next to all kinds of formatting; images with targets of up to 2 (3) pieces, 12 alternative texts "
     "and five further attributes; 16 words that are neither, in 30 surroundings",
     "The tests link to http://example.com.",
     [SCAN, INLINES, TERA + "inline.html.tera", TERA + "block.html.tera"],
     [("where a URL ends", SCAN), ("macro targets and attributes", "src/utils.rs"), ("escaping in attributes", HTML)],
     ["the graph's JSON", "render_htmlbook"],
     "Bare URLs with doubled marks or character references in them are left out.")

prop("P25", "Every graph is well formed: each node in its place, complete and located",
     "Whatever text is parsed, the graph has only nodes of known kinds, each with the keys of its kind and no others, and each in a place for it: blocks in documents, sections, items and containers, items in lists (at least one, all with the "
     "list's kind of marker), cells in tables, inline nodes in text. Sections are in sections of a higher rank. Text nodes and paragraphs are not empty, and nodes for character references have just a name or number between & and ;. Every node is located by two points of the source, in order.",
     ["inputs"],
     "all texts of up to 4 (5) of 37 characters, 3 (4) of 92 fragments, 6 (7) of each of 20 groups of six symbols, 5 (6) of the ten of character references; all sequences of up to 3 (4) of 95 pieces of markup with words; all sequences of up to 3 (4) of 27 kinds of blocks",
     "Consumers of the graph rely on its schema for every document; tests compare the graphs of a few documents.",
     [ASG, BLOCKS, LISTS, INLINES, NODES, PARSE],
     [("pushing blocks to their parents", BLOCKS), ("the stack of open blocks", PARSE), ("serialization", ASG)],
     ["the graph's JSON"],
     "A validator of the graph's JSON, with the kinds of nodes and keys that the code defines; rejected texts have no graph. Locations are not compared with the source after a term that ends its line (the known finding of P02).")
