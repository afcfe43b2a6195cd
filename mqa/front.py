"""Parsing of the Python 2 sources of /repo with the meanings they have when run
(string escapes \\N \\u \\U are literal in plain strings)."""
import ast
import io
import os
import re
import tokenize

REPO = os.environ.get('MQA_REPO', '/repo')
_ESCAPE = re.compile(r"\\(.)", re.DOTALL)


class AnalysisError(Exception):
    """The checker cannot give an answer (vanished anchor, unsupported construct)."""


def _fix_literal(text):
    prefix = re.match(r"[A-Za-z]*", text).group().lower()
    if "r" in prefix or "u" in prefix or "b" in prefix:
        return text
    return _ESCAPE.sub(lambda m: "\\" + m.group() if m.group(1) in "NuU" else m.group(), text)


def fix_source(source):
    lines = source.splitlines(keepends=True)
    edits = []
    for tok in tokenize.generate_tokens(io.StringIO(source).readline):
        if tok.type == tokenize.STRING:
            new = _fix_literal(tok.string)
            if new != tok.string:
                edits.append((tok.start, tok.end, new))
    for (r0, c0), (r1, c1), new in reversed(edits):
        first, last = lines[r0 - 1], lines[r1 - 1]
        body = (first[:c0] + new + last[c1:]).splitlines(keepends=True)
        lines[r0 - 1:r1] = body
    return ''.join(lines)


_cache = {}


def parse_text(text, name):
    return ast.parse(fix_source(text), filename=name)


def source_files():
    return sorted(f for f in os.listdir(REPO) if f.endswith('.py') and not f.startswith('test_'))


def parse(name):
    """name without .py"""
    if name not in _cache:
        path = os.path.join(REPO, name + '.py')
        if not os.path.exists(path):
            raise AnalysisError('anchor vanished: module %s' % name)
        with open(path, encoding='utf-8') as f:
            text = f.read()
        try:
            _cache[name] = parse_text(text, path)
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (path, e))
    return _cache[name]


def modules():
    return [f[:-3] for f in source_files()]
