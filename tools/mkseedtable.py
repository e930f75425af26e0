#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = {
    'para-after-nothing': 'calls without results on lines next to blocks',
    'error-raw-html': 'error pages with and without marked-up messages',
    'stat-late': 'edits in the midst of a request',
    'include-once': 'files included more than once',
    'ref-similar-prefix': 'similar tags which differ by case',
    'file-flag-relative': 'odd paths of files',
    'number-many': 'files included more than once',
    'stat-link-time': 'sources which are symbolic links',
    'tmpl-lstat': 'templates which are symbolic links',
    'style-in-title-only': 'sections styled again',
    'link-trim-target': 'link targets with blanks at their ends',
    'partial-trim': 'partials set again, to nothing',
    'section-path-number': 'files of the same name, in the book and besides it',
    'serve-not-modified': 'browsers which keep pages and ask whether they have changed',
    'title-lower-first': 'letters in titles which are ASCII only in lower case',
    'include-symlink': 'books some of whose files are symbolic links',
    'number-ten': 'more than nine sections below one that is not the root',
    'render-memo': 'different content whose text is the same, next to each other',
    'comment-lines-first': 'lines of verbatim text that look like comments, titles, Markdown and more',
    'error-wide-number': 'failing calls thousands of lines down a file',
    'method-words': 'a probe function whose name has eleven words',
    'index-rendered-only': 'parts of books built by the command, with an index',
    'tag-exclude-name': 'sections of the same name none of which is referred to',
    'tmpl-all-removed': 'histories which remove all templates at once',
    'para-first-block': 'paragraphs of blocks and lines',
    'append-nested-seq': 'joined content joined again, from both sides',
    'append-shared': 'a probe which returns the same content each time',
    'tmpl-newer-only': 'modification times set back',
    'tmpl-trim': 'output of templates compared byte by byte',
    'call-plugin-order': 'plugins used late, with overlapping functions',
    'serve-include-parsed': 'times which other files had',
    'aux-link-nested': 'links and images with auxiliary content in titles',
    'syntax-block-flow': 'flow code with blanks at its ends',
    'number-same-tag': 'sections with equal and with no titles',
}
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs'], STRONGER.get(d, '')))
rows.sort()
out = ['| bug | caught by | needs | what the check gained |', '|---|---|---|---|']
out += [f'| {d} | {p} | {n.replace("|", "/")} | {s} |' for p, d, n, s in rows]
path = root + '/DESIGN.md'
s = open(path).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->|^SEEDTABLE$', lambda _: '<!-- seeded -->\n' + '\n'.join(out) + '\n<!-- /seeded -->', s, flags=re.S | re.M)
open(path, 'w').write(s)
