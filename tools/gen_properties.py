#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the wording)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["the string returned by the public formatting functions"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
IN=["inputs"]; INC=["inputs","configurations"]
p("C01","Formatting any document terminates and succeeds",
 "For every UTF-8 document and every configuration (maximum width, reflow on or off, code-block formatter installed or not) formatting terminates and returns a document: it never panics, never overflows or slices out of range, and never returns an error. The same holds when its own output is formatted again.",
 INC,"every document, every width and reflow setting, and the output of the formatter as input",
 "Tests feed about 1300 fixed documents; a panic or a hang needs one unusual byte combination or width outside them.",
 ["src/formatter.rs","src/list.rs","src/paragraph.rs","src/header.rs","src/links.rs","src/table.rs","src/html.rs","src/utils.rs","src/writer.rs"],
 [("event loop, peeking and nesting stacks","src/formatter.rs FormatState::format"),("list prefix parsing","src/list.rs"),("width arithmetic","src/paragraph.rs, src/table.rs")],
 ["return value, panic or non-termination of the public formatting functions"])
p("C02","Formatting is idempotent",
 "Formatting already formatted output with the same configuration returns it unchanged, for every document, width and reflow setting.",
 INC,"every document and every configuration; the second run uses the same configuration as the first",
 "Tests check idempotence on the fixtures only; each interaction of wrapping, escaping, list indentation and nesting can break it on inputs no fixture has.",
 ["src/formatter.rs","src/paragraph.rs","src/escape.rs","src/list.rs","src/header.rs","src/table.rs"],
 [("escape decisions are made so the output re-parses the same","src/formatter.rs needs_escape / src/paragraph.rs"),("wrapping","src/paragraph.rs")])
p("C03","The formatted document means the same as the original",
 "Parsing the output gives the same document as parsing the input: the same tree of blocks and inlines, the same text, code, links, images, titles, table cells, task-list states, footnotes and HTML; only soft line breaks and insignificant spacing may differ. In particular text that is not markup never becomes markup and markup never becomes text.",
 INC,"every document; every width and reflow setting (with reflow a soft break may become a space and back)",
 "Which characters need an escape depends on position, neighbours and container; tests sample a few combinations.",
 ["src/formatter.rs","src/paragraph.rs","src/escape.rs","src/header.rs","src/html.rs","src/links.rs","src/table.rs","src/footnote.rs"],
 [("text copied from the source, never from the decoded event","src/formatter.rs"),("escapes for text that would start a block","src/paragraph.rs, src/escape.rs")],
 ["pulldown-cmark event streams of input and output under the formatter's own parser options"])
p("C04","Code block contents and info strings survive verbatim",
 "Every code block, fenced or indented, at any nesting, keeps its kind, its info string and its content byte for byte when no code-block formatter changes it, including blank lines, leading and trailing spaces and runs of backticks or tildes; a fenced block's fence stays long enough that its content cannot close it.",
 INC,"every document containing code blocks at any container nesting, every configuration",
 "The fixtures hold few contents; every content line (fence look-alikes, whitespace, container prefixes) is in the quantifier.",
 ["src/formatter.rs","src/utils.rs"],
 [("fence marker is taken from the source","src/formatter.rs start_tag CodeBlock"),("content buffering and rewriting","src/formatter.rs end_tag CodeBlock")],
 ["code block events and source lines of the output"])
p("C05","The code-block formatter hook is called faithfully",
 "A user-supplied code-block formatter is called exactly once per fenced code block, in document order, with the block's info string, its exact content, the indentation at which the block is written and the configured maximum width; what it returns is what appears inside the fence, indented to the block's container. Blocks whose info string names markdown are themselves formatted with the same rules and a width reduced by their indentation.",
 INC,"every document, nesting, info string, formatter result and width",
 "Tests install a hook on a handful of documents and never compare context values at nesting.",
 ["src/builder.rs","src/formatter.rs","src/config.rs","src/lib.rs"],
 [("hook call and context","src/builder.rs, src/formatter.rs end_tag CodeBlock"),("nested markdown formatting with reduced width","src/formatter.rs / src/builder.rs")],
 ["calls recorded by an installed code-block formatter and the resulting output"])
p("C06","Links, images and reference definitions keep their targets",
 "Every link and image keeps its kind (inline, reference, collapsed, shortcut, autolink), destination, title and text, and every link reference definition is kept once, in order, with its label, destination and title; no reference is left dangling and no new definition appears.",
 INC,"every document with links, images or definitions in any container, every configuration",
 "Destinations, titles and labels each have their own quoting and escaping rules; tests cover chosen combinations.",
 ["src/links.rs","src/formatter.rs"],
 [("inline link rewriting","src/links.rs"),("definition rewriting and placement","src/formatter.rs rewrite_reference_link_definitions")],
 ["link/image events and the parser's reference definitions of input and output"])
p("C07","Paragraph lines never exceed the maximum width if breakable",
 "With a maximum width set, no line of a paragraph in the output, counted in display columns with its container prefix, is wider than the maximum if it could have been broken at a space inside it.",
 INC,"every document and every width, in every container, reflow on or off",
 "Depends on byte length versus display width, container indentation, and where a token starts; tests use a few texts and widths.",
 ["src/paragraph.rs","src/formatter.rs","src/list.rs"],
 [("width minus indentation is passed to the wrapper","src/paragraph.rs, src/formatter.rs"),("wrapping","src/paragraph.rs")])
p("C08","Line breaks: kept without reflow, greedy with it, never losing words",
 "Wrapping and reflowing only change where soft breaks fall: the sequence of words of every paragraph is unchanged and hard breaks stay hard breaks at the same place. Without a maximum width and without reflow every source line break of a paragraph is kept; without reflow a width only adds breaks; with reflow each line is filled so that its first word would not have fitted on the previous line.",
 INC,"every paragraph, width and reflow setting",
 "Tests sample few texts and widths.",
 ["src/paragraph.rs","src/formatter.rs"],
 [("soft/hard break handling","src/formatter.rs SoftBreak/HardBreak"),("textwrap options","src/paragraph.rs")])
p("C09","Tables keep cells and alignment and come out rectangular",
 "Every table keeps its header, delimiter alignments, number of rows and the content of every cell, including escaped pipes; in the output all rows of a table have the same number of cells and the same display width, wide and combining characters counted by display column.",
 INC,"every table, cell content, alignment and nesting",
 "Cell contents (escapes, wide characters, empty or missing cells) form an unbounded space.",
 ["src/table.rs","src/formatter.rs"],
 [("column widths and padding","src/table.rs"),("delimiter row parsing","src/table.rs / src/formatter.rs")])
p("C10","Formatting depends only on the document and the configuration",
 "The same document with the same configuration always gives the same output: a formatter that has already formatted other documents, including documents with embedded markdown blocks and definitions, gives exactly what a fresh one gives, and equivalent ways of configuring a formatter are interchangeable.",
 ["inputs","histories","configurations"],"every sequence of documents given to one formatter and every configuration",
 "Tests make a fresh formatter per document; state left behind needs a specific sequence.",
 ["src/builder.rs","src/formatter.rs","src/config.rs","src/lib.rs"],
 [("shared configuration cell changed and restored around nested formatting","src/builder.rs"),("per-run state","src/formatter.rs FormatState")],
 ["outputs of two formatter objects, one reused and one fresh"],
 [("configuration","maximum width temporarily reduced while embedded markdown is formatted","src/builder.rs")])
p("C11","Output is clean text: no stray whitespace, CR or blank edges",
 "The output does not begin with a blank line, ends with a newline exactly when the input does and never with a blank line outside code or HTML, has no carriage returns and no trailing whitespace outside verbatim regions and hard breaks; a document with CRLF line ends formats to the same text as with LF.",
 INC,"every document, line ending and configuration",
 "Each container emits its own prefixes and newlines; tests cover chosen nestings only and no CRLF variants.",
 ["src/writer.rs","src/formatter.rs","src/utils.rs","src/paragraph.rs"],
 [("newline and indentation writing","src/formatter.rs write_newlines/write_indentation"),("trailing whitespace trimming","src/writer.rs")])
p("C12","Lists keep markers, numbering, nesting and item alignment",
 "Every list keeps its kind, its marker character or delimiter, its start number and its numbers as the formatter's rules give them (constant or increasing by one as the first two items say), its item count, nesting depth and task states; each item's content is indented to the column right after its marker, so that it stays in the item.",
 INC,"every list, marker, number, nesting and configuration",
 "Numbers, padding, nesting and blank lines interact; tests sample them.",
 ["src/list.rs","src/formatter.rs"],
 [("list marker parsing and increment","src/list.rs ListMarker"),("indentation stack","src/formatter.rs")])
p("C13","Headings keep level, text, and attributes in canonical style",
 "Every heading keeps its level, its text and its id, classes and attributes; ATX headings stay ATX without losing text to a closing sequence and setext headings stay setext with their underline.",
 INC,"every heading, level, style, text and attribute list",
 "Attribute and closing-sequence parsing depend on exact characters at the end of a heading.",
 ["src/header.rs","src/formatter.rs"],
 [("heading kinds and attribute writing","src/header.rs")])
p("C14","Block quote nesting is preserved on every line",
 "Every block stays inside exactly the block quotes (and alert kinds) it was in, and in the output each line of a block quote carries one marker per quote level explicitly; no block moves into or out of a quote.",
 INC,"every document with block quotes at any nesting, every configuration",
 "Lazy continuation, nesting in lists and empty quote lines combine without bound.",
 ["src/formatter.rs","src/utils.rs"],
 [("indentation stack and quote markers","src/formatter.rs start_tag BlockQuote"),("prefix on empty lines","src/formatter.rs write_indentation")])
p("C15","Inline markup, escapes and entities are kept as written",
 "The author's spelling of inline content is kept: emphasis and strong markers, strikethrough, code spans with their backtick runs, math, inline HTML, entities and existing backslash escapes appear in the output with the same characters in the same order, apart from line breaks and escapes that had to be added.",
 INC,"every inline content, every configuration",
 "Combinations of markers, escapes and neighbours are unbounded.",
 ["src/formatter.rs","src/paragraph.rs","src/escape.rs"],
 [("markers copied from the source range","src/formatter.rs"),("escaping","src/escape.rs")])
p("C16","HTML blocks, metadata blocks and rules survive verbatim",
 "HTML blocks and metadata blocks keep every character of their lines, apart from their container's indentation, and thematic breaks keep the author's characters; none of them is merged with its neighbours.",
 INC,"every HTML or metadata block and rule, in every container",
 "HTML block start and end conditions depend on exact text; tests sample some.",
 ["src/html.rs","src/formatter.rs"],
 [("html buffering","src/html.rs"),("metadata and rule copying","src/formatter.rs")])
p("C17","Footnotes keep labels, references and contents",
 "Every footnote definition stays a footnote definition with the same label and the same contents, multi-block contents staying inside it, and every footnote reference still refers to the same label.",
 INC,"every document with footnotes, every configuration",
 "Footnote contents may be any blocks; tests hold few.",
 ["src/footnote.rs","src/formatter.rs"],
 [("definition label and content indentation","src/footnote.rs, src/formatter.rs")])
p("C18","Blank-line separation of blocks is preserved",
 "Two neighbouring top-level blocks are separated by as many blank lines in the output as in the input up to the formatter's documented handling: blocks adjacent in the input stay adjacent, separated ones stay separated, and tight lists stay tight and loose lists loose.",
 INC,"every sequence of blocks, every configuration",
 "Every pair of neighbouring block kinds and gap is a case.",
 ["src/formatter.rs","src/utils.rs"],
 [("newline counting between source positions","src/formatter.rs count_newlines / write_newlines")])
p("C19","The command line tool formats files without losing data",
 "The command line tool writes exactly the library's output for the given width and reflow options, to the file in place or to standard output, and leaves the file unchanged when it cannot be read or formatted.",
 ["inputs","configurations","fault_sequences"],"every file content, option combination and I/O failure point",
 "No test runs the tool.",
 ["src/main.rs"],[("option parsing, read, format, write","src/main.rs main")],["file contents, standard output and exit status of the tool"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
