#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; no check runs or reads this)."""
import json, os
fixed = [
 ("C05","78c36c2","calling a function with an argument which has no content (\\list{}) panicked"),
 ("C05","84dc807","a plugin function returning nil content panicked the build"),
 ("C14","2373106","stripping aux content from references and targets without content panicked"),
 ("C14","9987156","aux content which was the sole content of styled text or a link was not stripped, so that links showed it"),
 ("C06","f9743fa","a function with calls in its arguments saw the location of its last argument's call as its own"),
 ("C07","1d615d0","error pages annotated the wrong characters of a line with tabs or multi-byte characters"),
 ("C07","d028b2b","an error on a line of more than 64 kB could not be shown"),
 ("C10","9763573","links to tags with special characters (#, %, ?, spaces) did not lead to their page and anchor"),
 ("C27","c516a75","appending several pieces of content to a text dropped all but the first"),
 ("C16","dd3cd3e","tags set in partials were collected in random order, so that the error for a duplicate differed between builds"),
 ("C17","a46beaa","the server kept serving a file's old content after it was replaced by one with an older modification time"),
 ("C11","ed5e6df","\\split-sections after \\single-page overruled it, depending on their order"),
 ("C24","18b2b34","styled sections without a style template failed to render as text, though they do as HTML"),
 ("C04","d8efb8d","the indentation of a preformatted block nested in another's argument changed the outer block's indentation"),
 ("C24","cecb69b","templates were not reloaded after they failed to parse, were removed, or went backwards in time"),
 ("C05","7d9f8f1","a section which includes itself, directly or not, overflowed the stack"),
 ("C23","6d1d636","in text output a section's title and the first line of its body ran together"),
 ("C21","61be039","an error closing a written page was ignored, leaving an incomplete page behind exit status 0"),
 ("C27","868433a","content joined to the same sequence twice overwrote each other, or made it contain itself, as Append shared memory"),
 ("C24","e5c84d6","an empty user template did not override the bundled one of its name"),
 ("C03","48a81b6","a syntax error at a line break was reported at column 0 of the line after it with LF, and at the end of its own line with CRLF"),
 ("C24","7b27031","templates in a directory whose name has characters that mean something in a pattern were not found"),
 ("C25","e513c8a","the Booklit lexer for highlighting ended verbatim text at the first pair of braces inside of it"),
]
out=[]
for p,c,w in fixed:
    out.append({"property":p,"status":"fixed","commit":c,"what":w,"line":f"fixed: property={p} {c} {w}"})
out += [
 {"property":"C05","status":"known","root":"index.lit","symptom":"stack overflow",
  "what":"a section whose title refers to itself (\\title{See \\reference{foo}}{foo}) overflows the stack: the reference's text is the title's, without end",
  "files":{"index.lit":"\\title{See \\reference{foo}}{foo}\n\nHello.\n"}},
 {"property":"C05","status":"known","root":"index.lit","symptom":"stack overflow",
  "what":"\\styled{page} makes the page template render the section by the page template, without end",
  "files":{"index.lit":"\\title{A}\n\n\\styled{page}\n\nHello.\n"}},
 {"property":"C05","status":"known","root":"index.lit","symptom":"nil pointer dereference",
  "what":"a table of contents above a section without a title fails with a nil pointer dereference in the template",
  "files":{"index.lit":"\\title{A}\n\n\\table-of-contents\n\n\\section{\nno title\n}\n"}},
]
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.json")
json.dump({"findings":out},open(p,"w"),indent=1)
open(p,"a").write("\n")
