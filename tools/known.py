"""Writes the known: lines of known_findings.txt (development time only; checks read that file, never this).

known.py RAW.json...   raw results of `mdsym check`: which (property, code) each family breaks is taken from them.
"""
import json, re, sys, os
from collections import defaultdict

# id, pattern of the whole document, what fails
FAMS = [
    ("unicode-space", r'(?:[*+-]? |[*+-])[\u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]', "a paragraph that only consists of Unicode white space is dropped"),
    ("unicode-space-start", r'\x85[\n\r]b', "a first line that only consists of U+0085 is written as a trailing space, and dropped by the next run"),
    ("nbsp-title", r'!?\[[^\]]*\]\([^ ]*\xa0.*\)', "no-break space in front of a link title is replaced with a space; existing tests (spec example 506) pin this"),
    ("label-backslash", r'.*\[[^\]]*\\(?:[ \t\n]|\\)\].*', "a backslash followed by white space at the end of a link label: the white space is dropped and the backslash doubled"),
    ("fence-tab", r'(?:(?:-|1\.) )+```\n\n\tb\n', "a paragraph indented with a tab after the unclosed fence of a nested list makes the outer list loose"),
    ("metadata-in-quote", r'(?:.*\n)?>---\n.*', "the parser sees a metadata block in a block quote; its end becomes a rule or heading"),
    ("table-code", r'\|.{0,3}`.*\n\|[- :|]+\|\n\|.*`.*', "a paragraph with a multi-line code span whose lines look like a table's delimiter row is escaped inside of the code; existing tests pin this"),
    ("html-after-list", r'<table>.*\n *[-*+] [^\n]*\n.*\n *</?t[dr]>.*', "an indented HTML block after a list whose items get dedented becomes part of the item"),
    ("alert-link", r'> \[![A-Za-z]+\]\[\n> a\]', "a line ending after `[!NOTE][` in a block quote keeps the quote marker as text"),
    ("quote-empty-item", r'>[ \t]{2}[*+-]\n>[ \n\t]{2}', "the blank line after an empty item at the end of a block quote is only dropped by the second run"),
    ("item-quote-item", r'\* a\n  > [-*+]\n  >\n\* c', "a block quote that ends with a blank line after an empty item makes the list loose"),
    ("definition-blank", r'\[a\]: /b\n\t[\n\t]', "the parser's empty paragraph after a link reference definition is dropped"),
    ("quote-empty-attributes", r'> \{\}\n> [-=]', "a setext heading of nothing but `{}` in a block quote turns into a backslash"),
    ("heading-backslash", r'(?:H1\n)?[A-Za-z]{1,3}[^\n]*\\[ \n]?\{[^\n]*\}\n==.*|.*\n(?:H2-?.?)\\ ?\{#.*', "a heading whose attributes follow a backslash loses or duplicates text"),
    ("heading-comment-cr", r'# H1 \{ #id1 \} foo\n## H2 \{#id2\} <!-- \rello -->', "a lone CR in a heading's comment"),
    ("footnote-in-quote", r'\[\^foo\] \[\^bar\]\n>\[\^foo\]: \[\^bar\]: 1', "a footnote definition right after another label in a block quote is escaped by the second run"),
    ("nested-label", r'\[\^ink \[foo \[bar\]\]\]\[ref\]\n\n\[ref\]: /uri|\[foo\]\[\^ar\]\[baz\]\n\n.*|!\[fo[o\[] \*bar\*\](?:\[\])?\n\n\[fo[o\[] \*bar\*\]: train.jpg "train & tracks"', "brackets in link labels"),
    ("autolink-brackets", r'\[foo<http://example\.com/\?search.?\](?:\(.{3}\)|\[.{3}\])>(?:\n\n\[ref\]: /uri)?', "white space in what would otherwise be an autolink across a link's end moves the end of the link"),
]

d = defaultdict(set)
ex = {}
for f in sys.argv[1:]:
    p = int(re.search(r'\.(\d+)\.json$', f)[1])
    for v in json.load(open(f))["violations"]:
        doc, k = v["doc"], None
        for i, r, _ in FAMS:
            if re.fullmatch(r, doc, re.S):
                k = i
                break
        if k is None:
            print("UNLISTED C%02d.%d w=%s f=%s %s" % (p, v["code"], v["width"], v["flags"], ascii(doc)[:200]))
            continue
        d[k, p].add(v["code"])
        e = (len(doc), doc, v["width"], v["flags"])
        if (k, p) not in ex or e < ex[k, p]:
            ex[k, p] = e
out = []
for i, r, what in FAMS:
    for p in range(1, 19):
        if (i, p) in d:
            _, doc, w, f = ex[i, p]
            opt = ("" if w == -1 else " w=%d" % w) + ("" if not f & 1 else " r=1")
            r2 = "".join(c if c < "\x7f" else "\\u%04x" % ord(c) for c in r)
            out.append("known: property=C%02d id=%s codes=%s example=%s%s input=/%s/ -- %s" % (
                p, i, ",".join(map(str, sorted(d[i, p]))), json.dumps(doc), opt, r2, what))
f = os.path.dirname(os.path.abspath(__file__)) + "/../known_findings.txt"
old = [l for l in open(f).read().split("\n") if l and not l.startswith("known:")]
head = [l for l in old if l.startswith("#")]
open(f, "w").write("\n".join(head + out + [l for l in old if not l.startswith("#")]) + "\n")
print(len(out), "known lines;", "unused:", [i for i, _, _ in FAMS if not any((i, p) in d for p in range(1, 19))])
