"""Independent reference for attribute selectors.

A selector is a nested list: ['has', attr], ['cmp', attr, op, value, icase],
['is'|'not'|'where'|'and', [selectors]].
"""

OPS = ('=', '~=', '|=', '^=', '$=', '*=')
WS = ' \t\f\r\n'


class Malformed(Exception):
    pass


def _first(c):
    return 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '\u00a0' <= c <= '\uffff' or c == '_'


def _other(c):
    return _first(c) or '0' <= c <= '9' or c == '-'


def is_identifier(s):
    if s == '-':
        return True
    t = s[1:] if s.startswith('-') else s
    return bool(t) and _first(t[0]) and all(_other(c) for c in t[1:])


class _Parser(object):
    def __init__(self, text):
        self.t, self.i = text, 0

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in WS:
            self.i += 1

    def peek(self):
        self.ws()
        return self.t[self.i] if self.i < len(self.t) else ''

    def lit(self, s):
        self.ws()
        if not self.t.startswith(s, self.i):
            raise Malformed(f'{s!r} expected at {self.i}')
        self.i += len(s)

    def ident(self):
        self.ws()
        j = self.i
        if j < len(self.t) and self.t[j] == '-':
            j += 1
        if j < len(self.t) and _first(self.t[j]):
            j += 1
            while j < len(self.t) and _other(self.t[j]):
                j += 1
        elif j == self.i:
            raise Malformed(f'identifier expected at {self.i}')
        s = self.t[self.i:j]
        self.i = j
        return s

    def string(self, q):
        j = self.i + 1
        out = []
        while True:
            if j >= len(self.t) or self.t[j] == '\n':
                raise Malformed('unterminated string')
            c = self.t[j]
            if c == '\\' and j + 1 < len(self.t) and self.t[j + 1] in ('\\', q):
                out.append(self.t[j + 1])
                j += 2
            elif c == q:
                break
            else:
                out.append(c)
                j += 1
        self.i = j + 1
        return ''.join(out)

    def one(self):
        c = self.peek()
        if c == '[':
            self.i += 1
            attr = self.ident()
            if self.peek() == ']':
                self.i += 1
                return ['has', attr]
            for op in OPS:
                if self.t.startswith(op, self.i):
                    self.i += len(op)
                    break
            else:
                raise Malformed(f'operator expected at {self.i}')
            c = self.peek()
            val = self.string(c) if c and c in '"\'' else self.ident()
            icase = False
            if self.peek() in ('i', 'I') and self.peek():
                word = self.ident()
                if word not in ('i', 'I'):
                    raise Malformed('flag')
                icase = True
            self.lit(']')
            if val == '':
                raise Malformed('empty value')
            return ['cmp', attr, op, val, icase]
        for kind in ('is', 'not', 'where'):
            if self.t.startswith(f':{kind}(', self.i):
                self.i += len(kind) + 2
                items = [self.one()]
                while self.peek() == ',':
                    self.i += 1
                    items.append(self.one())
                self.lit(')')
                if kind == 'is' and len(items) == 1:
                    return items[0]
                return [kind, items]
        raise Malformed(f'selector expected at {self.i}')


def parse(text):
    p = _Parser(text)
    items = [p.one()]
    while p.peek():
        items.append(p.one())
    return items[0] if len(items) == 1 else ['and', items]


def match(s, row):
    kind = s[0]
    if kind == 'has':
        return bool(row.get(s[1], ''))
    if kind == 'cmp':
        _, attr, op, val, icase = s
        x = row.get(attr, '')
        if icase:
            val, x = val.upper(), x.upper()
        if op == '=':
            return x == val
        if op == '~=':
            return val in x.split()
        if op == '|=':
            return x == val or x[:len(val) + 1] == val + '-'
        if op == '^=':
            return x[:len(val)] == val
        if op == '$=':
            return len(x) >= len(val) and x[len(x) - len(val):] == val
        if op == '*=':
            return x.find(val) >= 0
        raise AssertionError(op)
    if kind in ('is', 'where'):
        return any([match(x, row) for x in s[1]])
    if kind == 'not':
        return not any([match(x, row) for x in s[1]])
    return all([match(x, row) for x in s[1]])


def specificity(s):
    kind = s[0]
    if kind == 'has':
        return (1, 0)
    if kind == 'cmp':
        return (1, 1)
    if kind == 'where':
        return (0, 0)
    parts = [specificity(x) for x in s[1]]
    if kind == 'and':
        return (sum(p[0] for p in parts), sum(p[1] for p in parts))
    return max(parts)


def key(s):
    """Canonical form: order and repetition inside lists do not matter."""
    if s[0] == 'has':
        return ('has', s[1])
    if s[0] == 'cmp':
        return ('cmp', s[1], s[2], s[3].lower() if s[4] else s[3], s[4])
    return (s[0], frozenset(key(x) for x in s[1]))


def best_key(cands, row, default):
    """cands: key -> selectors.  The greatest specificity that one key alone has."""
    score = {}
    for k, sels in cands.items():
        hits = [specificity(s) for s in sels or () if match(s, row)]
        if hits:
            score[k] = max(hits + [(0, 0)])
    for level in sorted(set(score.values()), reverse=True):
        keys = [k for k in score if score[k] == level]
        if len(keys) == 1:
            return keys[0]
    return default
