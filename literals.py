"""Literals of the Rust sources under DIR/src: what the current source has more often than the recorded one becomes a dictionary
for the generators of the bounded check (sizes, texts). It steers the search only; nothing is judged by it."""
import glob, json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
REC = os.path.join(HERE, 'contracts', 'literals.json')
TOK = re.compile(r'''//[^\n]*|/\*|(?P<raw>b?r(?P<h>\#*)"(?P<rb>.*?)"(?P=h))|(?P<str>b?"(?P<sb>(?:\\.|[^"\\])*)")|(?P<chr>b?'(?P<cb>\\u\{[0-9a-fA-F_]+\}|\\x..|\\.|[^'\\])')|(?P<num>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b)|'[a-z_]\w*|\b[A-Za-z_]\w*''', re.S)
def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == 'u': return chr(min(int(x[2:-1].replace('_', ''), 16), 0x10ffff))
        if x[0] == 'x': return chr(int(x[1:], 16))
        if x[0] == '\n': return ''
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(x[0], x[0])
    return re.sub(r'\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)', f, s, flags=re.S)
def of_text(t):
    c = {}; i = 0
    def add(k): c[k] = c.get(k, 0) + 1
    while True:
        m = TOK.search(t, i)
        if not m: return c
        i = m.end()
        if m.group() == '/*':
            d = 1
            while d and i < len(t):
                n = re.compile(r'/\*|\*/').search(t, i)
                if not n: return c
                d += 1 if n.group() == '/*' else -1; i = n.end()
        elif m.group('raw') is not None: add('s' + m.group('rb'))
        elif m.group('str') is not None: add('s' + unescape(m.group('sb')))
        elif m.group('chr') is not None: add('s' + unescape(m.group('cb')))
        elif m.group('num') is not None:
            x = re.sub(r'[iu](8|16|32|64|128|size)$', '', m.group('num').replace('_', '')) if not m.group('num').startswith('0x') else re.sub(r'[iu](8|16|32|64|128|size)$', '', m.group('num').replace('_', ''))
            try: add('n%d' % int(x, 0 if x[:2] in ('0x', '0b', '0o') else 10))
            except ValueError: pass
def current(repo):
    return {os.path.basename(f): of_text(open(f, encoding='utf-8', errors='replace').read()) for f in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True))}
def surrogates_ok(s): return all(not 0xd800 <= ord(c) <= 0xdfff for c in s)
def dictionary(repo):
    """lines for KXH_DICT"""
    try: old = json.load(open(REC))
    except Exception: return ''
    new = []
    for f, c in current(repo).items():
        o = old.get(f, {})
        for k, n in c.items():
            if n > o.get(k, 0): new.append((o.get(k, 0) > 0, k))
    nums, strs = [], []
    hexes = lambda s: {int(a or b or c, 16) for a, b, c in re.findall(r'\\x\{([0-9A-Fa-f]+)\}|\\x([0-9A-Fa-f]{2})|\\u\{([0-9A-Fa-f]+)\}', s)}
    known = set().union(set(), *[hexes(k) for c in old.values() for k in c])
    for _, k in sorted(new, key=lambda x: x[0]):
        if k[0] == 'n':
            n = int(k[1:])
            if n > 2: nums.append(n)
            if 32 < n < 0x110000 and not 0xd800 <= n <= 0xdfff: strs.append(chr(n))
        else:
            s = k[1:]
            for n in sorted(hexes(s) - known):
                strs += [chr(x) for x in (n, n - 1, n + 1) if 0 <= x < 0x110000 and not 0xd800 <= x <= 0xdfff]
            if len(s) <= 200 and '\\x{' not in s: strs.append(s)
            strs += [p for p in re.split(r'\{[^{}]*\}', s) if p and p != s and len(p) <= 60]
    seen, out = set(), []
    for n in nums[:40]: out.append('n%d' % n)
    for s in strs:
        if s and s not in seen and surrogates_ok(s): seen.add(s); out.append('s' + enc(s))
    return '\n'.join(dict.fromkeys(out[:90]))
def enc(s):
    b = s.encode('utf-16-be'); o = ''
    for i in range(0, len(b), 2):
        u = b[i] << 8 | b[i + 1]
        o += '\\u%04x' % u if u < 32 or u > 126 or u in (34, 92) else chr(u)
    return '"' + o + '"'
def record(repo): json.dump(current(repo), open(REC, 'w'), indent=0, sort_keys=True)
