#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand)."""
import json, os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,tech,note,level="exploration",observe=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,tech=tech,note=note,level=level,observe=observe or []))

MODEL="reference-model monitor"
NOTE="Held on the books generated from the seed, which the evidence counts; trusts the harness's independent reading of the syntax and model of the evaluation (harness/ref) and Go's runtime."

prop("C01","Prose is shown completely, exactly and in order",
 "Every word, escaped character, space between words, line and paragraph break of a document's prose appears on its page exactly as written and in the same order, whatever its length, characters and nesting in braces and inline calls. Consecutive non-empty lines make up one paragraph, with leading indentation dropped and lines kept apart, and blank lines separate paragraphs; nothing is lost, repeated, merged or reordered.",
 ["inputs"],"all documents of prose: any words, characters, escapes, groups, inline calls, line and paragraph breaks, line lengths",
 "The suite renders a handful of short ASCII paragraphs; loss, duplication or reordering depends on particular nestings, lengths and characters.",
 ["ast/booklit.peg","ast/booklit.peg.go","ast/node.go","stages/evaluate.go","sequence.go","append.go","paragraph.go","string.go","render/html/paragraph.tmpl"],
 [("grammar of words, lines and paragraphs","ast/booklit.peg"),("evaluation of sequences, lines and paragraphs","stages/evaluate.go VisitSequence, VisitParagraph")],
 "generated documents with a ground-truth oracle, and "+MODEL,NOTE)

prop("C02","Comments leave no trace",
 "A comment next to a word (between words or at the end of a line, also inside arguments, titles and preformatted text), or standing alone between blank lines, may be nested, span lines and hold any other characters including unbalanced braces and backslashes. It contributes nothing: apart from blanks next to it, the pages and function calls are the same as without it. Inside verbatim text, what looks like a comment is text.",
 ["inputs"],"all documents and all places and contents of comments",
 "The suite has a few fixed comments; parsing them depends on their contents, nesting and what is around them.",
 ["ast/booklit.peg","ast/booklit.peg.go"],[("comment rules of the grammar","ast/booklit.peg Comment")],
 "metamorphic monitor (with and without comments), and "+MODEL,NOTE)

prop("C03","LF and CRLF line ends give the same result",
 "A book whose files use CRLF line ends, in all lines or any of them, produces the same pages, search index, function calls and errors, at the same lines and columns, as the book with LF line ends.",
 ["inputs"],"all books and all choices of line ends for each line",
 "The suite converts one fixture as a whole; mixed line ends in each construct (verbatim, preformatted, comments, blank lines) are untested.",
 ["ast/booklit.peg","ast/booklit.peg.go"],[("line end rules of the grammar","ast/booklit.peg")],
 "metamorphic monitor (LF against CRLF), and "+MODEL,NOTE)

prop("C04","Preformatted and verbatim text is kept exactly",
 "Preformatted blocks keep every line, blank line, space and deeper indentation of what is written, dropping only the block's common leading indentation as set by its first line, and calls inside of it are evaluated; verbatim blocks are shown character by character with markup, braces and backslashes untouched. This holds for each block by itself, however blocks are nested inside of arguments of others, and in paragraphs as well as standing alone.",
 ["inputs"],"all blocks of preformatted and verbatim text at all nestings",
 "The suite has a few blocks with two levels of indentation.",
 ["ast/booklit.peg","ast/booklit.peg.go","stages/evaluate.go","preformatted.go","render/html/preformatted.tmpl"],
 [("indentation handling of the grammar","ast/booklit.peg"),("preformatted evaluation","stages/evaluate.go VisitPreformatted")],
 "generated blocks with a ground-truth oracle, and "+MODEL,NOTE)

prop("C05","Any input is built or reported as an error, never a crash",
 "For any input files — arbitrary bytes, any calls with any arguments, missing, empty or unreadable files, and includes of any shape, cycles too — loading and rendering either produce complete pages or return an error which can be displayed on the terminal and as an error page. They never panic, overflow the stack or abort the process.",
 ["inputs","configurations"],"all bytes in input files, all calls and arguments, all include graphs, HTML and text output, broken references allowed or not",
 "The suite's fixtures are well-formed, with a few chosen errors.",
 ["ast/booklit.peg.go","stages/evaluate.go","baselit/plugin.go","load/processor.go","errors.go","errhtml","section.go","aux_.go"],
 [("argument checks and conversion of calls","stages/evaluate.go VisitInvoke"),("error reporting","errors.go, ast/errors.go"),("self-include check","section.go, baselit/plugin.go IncludeSection")],
 "crash and runtime-error monitor over hostile inputs",
 "No crash, panic or runtime error on the hostile inputs generated from the seed; known crashes are listed in known_findings.json. Termination is left out (parsing can take exponential time).")

prop("C06","Functions are called exactly once, in order, with their arguments",
 "Each call written in evaluated text invokes the plugin function of its (hyphenated) name exactly once, in document order with arguments evaluated first, passing each argument evaluated as the parameter type asks (content, text, unevaluated syntax, or any further ones to a variadic parameter), and puts the content it returns in its place; a function which returns nothing leaves none behind. If several used plugins define it the one used first in the section answers; an undefined function, wrong number of arguments or an error returned by the function fails the build as such.",
 ["inputs","programs","configurations"],"all documents of calls, nestings, plugins in any order, argument counts and kinds",
 "The suite calls each base function in fixed positions; multiplicity, order and argument conversion over all nestings are not observed.",
 ["stages/evaluate.go","section.go","plugin.go","ast/node.go"],
 [("reflective invocation and argument conversion","stages/evaluate.go VisitInvoke, convert"),("plugin use and lookup order","section.go UsePlugin, stages/evaluate.go")],
 "call-trace monitor with probe plugins against a "+MODEL,NOTE)

prop("C07","Errors point at the text which caused them",
 "An error in a book (a syntax error, undefined or failing function, unknown or ambiguous tag, or second title) is reported with the file, line, column and length of the call (or, for syntax, the position) which caused it, wherever it stands: in nested arguments, other included files, behind comments, multi-byte text, tabs, CRLF line ends or on very long lines. The message on the terminal and the error page show that very line and mark those very characters, and error pages escape what they show; unknown tags list the similar existing tags, ambiguous ones all of their places.",
 ["inputs"],"all books and places of errors in them",
 "The suite checks six error fixtures, with ASCII text and the error on short lines.",
 ["errors.go","ast/errors.go","ast/node.go","ast/booklit.peg","stages/evaluate.go","errhtml/annotated-line.tmpl","errhtml/page.tmpl"],
 [("locations recorded by the grammar","ast/booklit.peg"),("annotation of source lines","errors.go AnnotateLocation"),("error pages","errors.go PrettyHTML, errhtml")],
 "fault planting with location oracle, and "+MODEL,NOTE)

prop("C08","Titles make headings and tags, once",
 "A section's heading shows its title's content; its tags are those given with the title, the first being its primary one, or, if none are given, one made from the title's text (lower case, words joined by dashes, other punctuation and auxiliary content dropped). The primary tag names the section's page and the anchor of its heading, references to any of its tags lead to it, and setting a second title is an error.",
 ["inputs"],"all titles: any content and characters, any number of tags",
 "The suite uses a dozen titles of ASCII words.",
 ["section.go","baselit/plugin.go","stages/collect.go","render/html/section.tmpl"],
 [("default tags","section.go SetTitle"),("title function","baselit/plugin.go Title")],
 MODEL+" over generated titles",NOTE)

prop("C09","References lead to the one place with their tag, or fail",
 "A reference, from anywhere in a book to anywhere in it, links to the only section or target with that tag, showing the given display or otherwise the title of what it refers to. If several places define the tag it is an error listing all of them, and if none does it is an error suggesting similar tags, unless broken references are allowed or the reference is optional, in which case its display is shown without failing.",
 ["inputs","configurations"],"all books, tags, duplicates, misspellings, and places of references and targets",
 "The suite has a few fixtures of two or three sections.",
 ["reference.go","section.go","stages/collect.go","baselit/plugin.go","errors.go","target.go","load/processor.go"],
 [("tag lookup","section.go FindTag, SimilarTags"),("resolution of references","stages/resolve (baselit), load/processor.go"),("collection of targets","stages/collect.go")],
 MODEL+" of tag resolution",NOTE)

prop("C10","Every link leads to an existing page and anchor",
 "Every link generated by references and tables of contents on any page of a book, and every location in its search index, resolved as a browser does, leads to a page which was written and to an anchor present on it, the very one of the section or target it names. This holds for tags with any characters but slashes, however sections are split over pages.",
 ["inputs","configurations"],"all books, tags with any characters but slashes, splits, places of links",
 "The suite compares fixed hrefs of simple tags and never checks that the anchor exists on the page written.",
 ["section.go","render/common.go","render/html.go","render/writer.go","render/html/section.tmpl","render/html/reference.tmpl","render/html/toc.tmpl","render/html/target.tmpl"],
 [("URLs of tags","render/common.go sectionURL, render/html.go"),("file names of pages","render/writer.go")],
 "link-integrity monitor over the written pages","Every link on the pages generated from the seed was resolved against the files written; trusts golang.org/x/net/html.")

prop("C11","Every section is on exactly one page, as split",
 "The pages of a book are its root's and those of the sections split off: a section's page holds it and all sections below it which are not on pages of their own, and every section is on exactly one page. Splitting puts each direct child of a section on a page of its own, a single page keeps everything below it together regardless of splitting at or below it and of the order of these settings, and heading levels follow the depth on the page.",
 ["inputs","configurations"],"all trees of inline and included sections, and all combinations of splitting settings",
 "The suite has three fixed trees of splits.",
 ["section.go","render/writer.go","render/html/section.tmpl","render/html/page.tmpl","baselit/plugin.go"],
 [("split and single-page settings","section.go SplitSections, PreventSplitSections, SplitSectionsPrevented"),("writing of pages","render/writer.go WriteSection")],
 MODEL+" of page placement",NOTE)

prop("C12","Numbers and tables of contents follow the section tree",
 "Each section's number is its position in the tree of sections, counting all siblings, whatever page it is on. A table of contents lists exactly the titled sections below its own, in order and nested like them, with their numbers, titles without auxiliary content and links, leaving out the children of sections which omit theirs.",
 ["inputs","configurations"],"all trees of titled sections, places of tables of contents, omissions and splits",
 "The suite has two fixed tables of contents.",
 ["toc.go","section.go","render/html/toc.tmpl","render/html/section.tmpl","baselit/plugin.go"],
 [("section numbers","section.go Number"),("tables of contents","render/html/toc.tmpl")],
 MODEL+" of the section tree",NOTE)

prop("C13","What authors write cannot break or inject HTML",
 "Text, titles, tags, link targets, image paths and descriptions, verbatim text, arguments and the search index may hold any characters (markup, quotes, ampersands, entities, script URLs): on HTML pages they appear as text or attribute values exactly as written, and the elements, attributes and nesting of a page depend only on the calls in the book. No attribute executes a script URL.",
 ["inputs"],"all characters at all places of a book",
 "The suite has one escaping case; contexts (attributes, ids, URLs, titles) by characters are a product it cannot list.",
 ["render/html.go","render/html","section.go"],
 [("contextual escaping by html/template","render/html.go"),("the only raw HTML: rendered content","render/html.go renderContent")],
 "metamorphic structure monitor over parsed pages, and "+MODEL,NOTE)

prop("C14","Auxiliary content is left out of links but kept at home",
 "Auxiliary content in a section's title or a target's title is shown where it is defined, and left out of the text of references without a display, table of contents entries, and default tags referring to it. Everything else of the title is kept, in order and with its styling, however deep the auxiliary content is nested in other content, and even if it is all there is.",
 ["inputs"],"all titles and targets with auxiliary content in all kinds and depths of content",
 "The suite has one title with auxiliary content at its end.",
 ["aux_.go","reference.go","section.go","render/html/toc.tmpl","render/html/reference.tmpl"],
 [("stripping of auxiliary content","aux_.go StripAux")],
 "marker monitor over written pages, and "+MODEL,NOTE)

prop("C15","The search index has one true entry per tag",
 "The search index is a JSON object with exactly one entry for every tag of the book, of sections on every page and of targets, and none besides. Each entry gives the location of its page and anchor, the title and text as plain text, the depth, and the section it belongs to.",
 ["inputs"],"all books with tags and targets of any content",
 "The suite compares one index of a fixed book.",
 ["render/writer.go","section.go","stages/collect.go","booklitcmd/command.go"],
 [("writing of the index","render/writer.go WriteSearchIndex")],
 MODEL+" of the index",NOTE)

prop("C16","Builds are reproducible and rendering changes nothing",
 "The same sources give the same bytes for all pages, the search index and errors, in every process and every time, whatever was loaded or rendered before. Rendering a section, turning it to text or looking up tags and neighbours does not change what any later rendering of it or any other section gives.",
 ["inputs","histories"],"all books, and all sequences of loads, renderings and queries",
 "The suite builds each book once.",
 ["stages/collect.go","section.go","render/html.go","render/engine.go","render/writer.go","load/processor.go","lazy.go"],
 [("ordered collection of tags and partials","stages/collect.go"),("engines without state per section","render/html.go")],
 "differential monitor over repeated builds, processes and renderings","All repetitions generated from the seed gave the same bytes.")

prop("C17","The development server always shows the files as they are now",
 "After any sequence of edits to sources, included files and templates — changes, removals, restorations, older modification times, broken and mended syntax — every page the development server gives is byte for byte what a fresh server started on the current files would give, error pages included. Any section's tag can be asked for as a page, other names give the files of the output directory, and unknown ones are not found.",
 ["histories","inputs"],"all histories of edits and requests",
 "The suite does not start the server at all.",
 ["booklitcmd/server.go","load/processor.go","render/html.go","booklitcmd/command.go"],
 [("cache of parsed files by modification time","load/processor.go"),("reloading of templates","render/html.go, render/engine.go"),("request handling","booklitcmd/server.go")],
 "history monitor: differential against a fresh load","The real server over HTTP on the histories generated from the seed, compared with a fresh load by the same code and with the model. Files change their modification time with every edit (edits within the clock's granularity are out of scope).")

prop("C18","Concurrent requests to the development server are consistent",
 "Any number of concurrent requests, while files and templates are being replaced, are free of data races, crashes and deadlocks, and each gets one complete answer. A page shows a single version of each file and template which was current at some moment of the request, and is the page a build of these versions gives; an error is shown only if a faulty version was current at some moment of the request.",
 ["schedules","histories"],"all schedules of concurrent requests and edits",
 "The suite has no concurrency at all.",
 ["booklitcmd/server.go","load/processor.go","render/html.go","render/engine.go"],
 [("lock around builds","booklitcmd/server.go"),("lock of the parse cache","load/processor.go"),("template lock","render/engine.go")],
 "race detector and version-consistency monitor over recorded histories","No race reported and all histories consistent on the schedules which occurred (requests, overlaps and edits are counted); Go's race detector sees only races which happen.")

prop("C19","Lazy content is generated at most once, and only when rendered",
 "Content generated lazily by a plugin is not generated while loading, is generated exactly once when it is first rendered, and all later renderings, also by several goroutines at once, show that same content or repeat that same error, without data races.",
 ["schedules","inputs"],"all books with lazy content at any places, and all schedules of uses",
 "The suite has one lazy value rendered once.",
 ["lazy.go","render/html.go","stages/collect.go","aux_.go"],
 [("once-only generation","lazy.go"),("visitors leaving lazy content alone while loading","stages/collect.go")],
 "exactly-once trace monitor under the race detector","Generator calls are counted on the books and schedules generated from the seed, with the race detector on.")

prop("C20","A section's plugins, partials, styles and includes are its own",
 "Functions of a plugin are available only in the section which uses it, after it does, and in sections then written in place below it (an included file starts with the base functions only), where each section gets an instance of its own; a plugin, style or partial set in a section affects no parent, sibling or child in any other way. Partials and styles are those of the section itself, and includes are relative to the directory of the file which has them.",
 ["inputs","configurations"],"all trees of inline and included sections in any directories, with any plugins, partials and styles",
 "The suite uses plugins and partials in one or two sections.",
 ["section.go","stages/evaluate.go","baselit/plugin.go","load/processor.go"],
 [("inheritance of plugins and partials","section.go, baselit/plugin.go Section, IncludeSection"),("partials","section.go Partial")],
 MODEL+" with identity probes",NOTE)

prop("C21","Exit status 0 means complete and correct output",
 "The build command exits with status 0 only if it wrote every page (and the search index, if asked for with one) completely and correctly to the output directory or to stdout, replacing what an earlier build left there. On any fault — in the book, templates, plugins, flags, missing inputs, or an I/O error at any point such as a full device — it exits with a nonzero status and a message on stderr which names an error's file and place.",
 ["inputs","fault_sequences","configurations"],"all books, flags, and I/O faults at any point of the run",
 "The suite does not run the command or inject faults.",
 ["booklitcmd/command.go","booklitcmd/main.go","render/writer.go","load/processor.go"],
 [("writing of pages with errors checked","render/writer.go"),("exit status","booklitcmd/main.go")],
 "fault injection under the real command with output oracle","The real command on books and faults generated from the seed: faults by /dev/full, file size limits, strace's system call errors, directories in the way.",level="exploration")

prop("C22","Lists, tables and definitions keep every item in its place",
 "Lists, ordered lists, tables, definitions, insets and asides show every item, row, cell, subject and definition they were given, each exactly once, in order, in its own place and with all of its content, for any number and any nesting of them, whether written in lines or blocks. A table or definition list given something else than rows or definitions is an error.",
 ["inputs"],"all nestings and numbers of items of structured blocks",
 "The suite has one example of each.",
 ["list.go","table.go","definitions.go","baselit/plugin.go","render/html/list.tmpl","render/html/table.tmpl","render/html/definitions.tmpl"],
 [("construction of blocks","baselit/plugin.go"),("rendering of blocks","render/html/*.tmpl")],
 "generated structures with a ground-truth oracle, and "+MODEL,NOTE)

prop("C23","Text output has all content, unescaped, as structured",
 "Rendering a book as text, with any file extension, writes the pages HTML would, each with every section's number and title and all of its words in the same order, without HTML escaping, with blocks separate from each other and insets and preformatted text indented and kept as such. Links and references use the chosen extension, user templates for text are applied, and content for which there is no text template is an error instead of being dropped.",
 ["inputs","configurations"],"all books of content which text output has templates for, all extensions and user templates",
 "The suite does not render text.",
 ["render/text.go","render/text","render/writer.go","render/common.go"],
 [("text engine and templates","render/text.go, render/text/*.tmpl")],
 MODEL+" of text output (up to blank lines)",NOTE)

prop("C24","User templates, styles and partials are applied, and current",
 "A user's template overrides the bundled one of its name and no other, styled content and sections use the template of their style, and templates get the content, partials, and function results of just the content or section they render. After templates are added, changed, broken, mended, removed or set back in time, a running engine asked to load them renders as a fresh one does, reporting broken ones by name.",
 ["configurations","histories","inputs"],"all sets of user templates, styles, partials, and histories of changes to them",
 "The suite has two fixtures with custom templates and never changes one.",
 ["render/engine.go","render/html.go","render/text.go","render/common.go","styled.go"],
 [("loading of templates","render/engine.go LoadTemplates"),("style lookup","render/html.go VisitStyled, RenderSection")],
 "template-use monitor against a "+MODEL+", differential over edit histories",NOTE)

prop("C25","Highlighted code shows the code, character by character",
 "Highlighted code, in any language or none and any style, shows exactly the characters of the code in order, apart from surrounding line ends; markup is only the highlighter's, in the colours of the style asked for, and code in a line stays in it while a block stays a block. Code transformers replace each match exactly once and keep everything else, and Booklit's own lexer keeps every character and tells comments, verbatim text, function names and braces apart.",
 ["inputs","configurations"],"all code, languages, styles and transformers",
 "The suite has one block of highlighted code.",
 ["chroma/plugin.go","chroma/booklit_lexer.go"],
 [("tokenising and formatting","chroma/plugin.go"),("Booklit lexer","chroma/booklit_lexer.go")],
 "conservation monitor over rendered code","Characters shown were those of the code on the code generated from the seed; languages whose library lexers alter text are left out.")

prop("C26","Navigation agrees with the tree of sections",
 "What a section gives as next is its first child if it is split, and otherwise the next sibling of it or of its nearest ancestor which has one; previous is the sibling before it, or its parent: so that following next through a book split at all levels visits every section exactly once in document order. Its top, number, absolute depth, depth within the page, own and page's anchors, and whether it contains or directly has another section, agree with its place in the tree.",
 ["inputs"],"all trees of sections with any splits",
 "The suite has no test of navigation.",
 ["section.go"],[("next, previous and siblings","section.go Next, Prev, NextSibling, PrevSibling")],
 "tree-order monitor",NOTE)

prop("C27","Composed content keeps every piece in order",
 "Content joined from pieces in any way, by plugins or by evaluation, renders and turns to text as its pieces in order, none lost, repeated or changed; joining, turning to text, or stripping auxiliary content changes neither the pieces nor the result of doing it again. Whether content is part of a line or a block follows from its pieces.",
 ["inputs","programs"],"all trees of content made by the API and all ways to join them",
 "The suite joins content only as its fixtures do.",
 ["append.go","sequence.go","content.go","paragraph.go","string.go","aux_.go","styled.go"],
 [("joining","append.go Append"),("flow or block","IsFlow of each content")],
 "algebraic monitor over random content trees","Held on the content trees generated from the seed.")

prop("C28","A section rendered alone is as in its book",
 "Rendering just one section, found by its tag or loaded from its own file below the book's root, gives what the section is as part of the book: with its number, the references, targets, plugins and partials of the book, and links to the pages they are on. Written to a directory, it gives just the pages at and below the section, and a tag or file which is not there is an error.",
 ["inputs","configurations"],"all books, and sections of them by tag or file",
 "The suite does not run the command.",
 ["booklitcmd/command.go","load/processor.go","render/writer.go"],
 [("rendering of part of a book","booklitcmd/command.go")],
 "differential against a "+MODEL+" of the whole book",NOTE)

prop("C29","Exactly the documented syntax is accepted",
 "A document is accepted exactly if it is well-formed (balanced braces, closed comments and verbatim text, calls with names, escapes of special characters), and what it means is what the syntax says: its calls with their arguments, groups, blocks, preformatted and verbatim text. Everything else is reported as a syntax error; nothing is silently skipped or reinterpreted.",
 ["inputs"],"all documents",
 "The suite parses well-formed fixtures and one malformed one.",
 ["ast/booklit.peg","ast/booklit.peg.go","load/processor.go"],
 [("the grammar","ast/booklit.peg")],
 "differential against an independent parser",NOTE)

prop("C30","Watching a build changes nothing but what is told about it",
 "Debug logging, CPU and HTTP profiling, and the threshold for slow calls only observe a build: its pages, search index, standard output, exit status and error are the same with any of them as without, and a profile asked for is complete. With a threshold, every function call which takes longer is told of on stderr, with its name and the file and line it is at, whatever calls are around or inside of it; with none, or one no call reaches, none is.",
 ["inputs","configurations","schedules"],"all books, with calls that take any time, and all combinations of the flags",
 "The suite sets none of these flags, and does not run the command.",
 ["booklitcmd/command.go","stages/evaluate.go","errors.go"],
 [("slow call warnings","stages/evaluate.go VisitInvoke"),("profiles and logging","booklitcmd/command.go Execute")],
 "differential monitor of the command with and without its observers, under the race detector","Held on the books, calls and flags generated from the seed; calls take 90 to 120 ms, thresholds are far below or above.")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"moreprops.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)),"moreprops.py")) else None

with open(os.path.join(ROOT,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],
          "quantifier":{"over":p["over"],"text":p["qtext"]},"why_tests_cant":p["why"],
          "anchors":{"files":p["files"],"mechanism":[{"name":n,"where":w} for n,w in p["mech"]],
                     "observe_at":p["observe"] or ["the package API (load, render) and the files and answers it produces"],"hook_needed":None}},ensure_ascii=False)+"\n")
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":p["id"],"quick_cmd":f"./run.sh {p['id']}","thorough_cmd":f"./run.sh {p['id']} -tier thorough","evidence_file":f"evidence/{p['id']}.json",
   "technique":"runtime monitoring: "+p["tech"],"level":p["level"],"level_note":p["note"]} for p in P],
 "not_applicable":[],
 "notes":"No hooks in /repo: everything is observed at its API, command line and HTTP boundary, with probe plugins and templates. run.sh builds the harness (with -race for C18, C19 and C30) against /repo's working tree each time. VERIF_TIER=thorough makes the same checks run their larger sizes. Replay: build harness/cmd/vh and run 'vh replay FILE'."}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False); open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
