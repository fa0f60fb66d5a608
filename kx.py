#!/usr/bin/env python3
"""Composer: kxtract JSON of /repo/src + contracts/*.{rs,kx} -> one Verus crate -> verdict per function."""
import json, os, re, subprocess, sys, hashlib, difflib, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KX_REPO', '/repo')
CON = os.path.join(V, 'contracts')
BUILD = os.environ.get('KX_BUILD', os.path.join(V, 'build'))
TOOL = os.path.join(V, 'tool', 'target', 'debug', 'kxtract')
SHAPES = os.path.join(CON, 'shapes.json')

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)

def build_tool():
    if not os.path.exists(TOOL):
        r = sh(['cargo', 'build', '--offline'], cwd=os.path.join(V, 'tool'))
        if r.returncode: raise RuntimeError('cannot build kxtract:\n' + r.stderr[-2000:])

def extract():
    build_tool()
    r = sh([TOOL, os.path.join(REPO, 'src')])
    if r.returncode: raise RuntimeError('kxtract failed: ' + r.stderr[-2000:])
    return json.loads(r.stdout)

# ---------------------------------------------------------------- contracts
class Con:
    def __init__(s, key, mod): s.key, s.mod, s.hdr, s.spec, s.loops, s.at, s.cl, s.pre = key, mod, {}, '', {}, [], {}, ''
def load_contracts():
    cons, rs, order = {}, {}, []
    for fn in sorted(os.listdir(CON)):
        base = re.sub(r'^\d+_', '', fn.rsplit('.', 1)[0])
        text = open(os.path.join(CON, fn)).read()
        if fn.endswith('.rs'):
            rs[base] = text; order.append(('rs', base))
        elif fn.endswith('.kx'):
            order.append(('kx', base))
            cur = None; sec = None
            for line in text.split('\n'):
                m = re.match(r'^=== (?:fn )?(.*?)\s*$', line)
                if m:
                    cur = Con(m.group(1), base); cons[cur.key] = cur; sec = 'hdr'; continue
                if cur is None: continue
                m = re.match(r'^--- (\w+)\s*(.*?)\s*$', line)
                if m:
                    k, a = m.groups()
                    if k == 'spec': sec = 'spec'
                    elif k == 'pre': sec = 'pre'
                    elif k == 'loop': sec = ('loop', int(a)); cur.loops[int(a)] = ''
                    elif k == 'at': cur.at.append([a, '']); sec = ('at', len(cur.at) - 1)
                    elif k == 'closure': sec = ('cl', int(a)); cur.cl[int(a)] = ''
                    else: raise RuntimeError(f'{fn}: bad section {line}')
                    continue
                if sec == 'hdr':
                    m = re.match(r'^(\w+):\s*(.*)$', line)
                    if m: cur.hdr[m.group(1)] = m.group(2).strip()
                elif sec == 'spec': cur.spec += line + '\n'
                elif sec == 'pre': cur.pre += line + '\n'
                elif sec[0] == 'loop': cur.loops[sec[1]] += line + '\n'
                elif sec[0] == 'at': cur.at[sec[1]][1] += line + '\n'
                elif sec[0] == 'cl': cur.cl[sec[1]] += line + '\n'
    return cons, rs, order

# ---------------------------------------------------------------- shapes
def shape(f):
    return {k: f.get(k) for k in ('sig', 'ret', 'where', 'locals', 'params', 'loops', 'closures', 'calls')}
def load_shapes():
    return json.load(open(SHAPES)) if os.path.exists(SHAPES) else {}
def rename_map(old, new):
    """recorded local/param name -> current name, by aligning the declaration sequences"""
    a, b = old['params'] + old['locals'], new['params'] + new['locals']
    if a == b: return {}
    m = {}
    sm = difflib.SequenceMatcher(a=a, b=b, autojunk=False)
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == 'replace' and i2 - i1 == j2 - j1:
            for i, j in zip(range(i1, i2), range(j1, j2)):
                if a[i] not in b: m[a[i]] = b[j]
    return m
def ren(text, m):
    if not m: return text
    return re.sub(r'(?<![\w.])(' + '|'.join(map(re.escape, sorted(m, key=len, reverse=True))) + r')\b', lambda x: m[x.group(1)], text)

def rlit(s):
    o = '"'
    for c in s:
        if c in '"\\': o += '\\' + c
        elif c == '\n': o += '\\n'
        elif c == '\t': o += '\\t'
        elif c == '\r': o += '\\r'
        else: o += c
    return o + '"'
def rchr(c):
    return {"'": "'\\''", '\\': "'\\\\'", '\n': "'\\n'", '\t': "'\\t'", '\r': "'\\r'"}.get(c, "'%s'" % c)
def seqlit(s):
    return ('seq![' + ', '.join(map(rchr, s)) + ']') if s else 'Seq::<char>::empty()'

PH = re.compile(r'__kx(inv|cl)?\s*\{\s*"([^"]*)"\s*\}')

class Composer:
    def __init__(s, data, cons, rs, order, shapes):
        s.d, s.cons, s.rs, s.order, s.shapes = data, cons, rs, order, shapes
        s.external = {}      # key -> reason
        s.lost = {}          # key -> [lost anchors]
        s.smoke = False

    def spec_of(s, f, c, m):
        return ren(c.spec.rstrip(), m)

    def body(s, key, f, c):
        m = rename_map(s.shapes[key], shape(f)) if key in s.shapes else {}
        used = set()
        pre = ''.join(f'hide({h});\n' for h in c.hdr.get('hide', '').split())
        lits = [l for l in f['literals'] if len(l) <= int(c.hdr.get('reveal', 12))]
        if lits and c.hdr.get('reveal') != '0':
            pre += 'proof {\n' + ''.join(f'reveal_strlit({rlit(l)}); assert({rlit(l)}@ =~= {seqlit(l)});\n' for l in lits) + '}\n'
        if c.hdr.get('nogroup') is None: pre += 'broadcast use {%s};\n' % c.hdr.get('group', 'group_off, ax_str_size, ax_string_size')
        pre += ren(c.pre, m)
        if s.smoke: pre += 'proof { assert(false); }\n'
        nxt = {}
        for_ids = re.findall(r'__kxinv\s*\{\s*"(\d+)[fb]"\s*\}', f['body'])
        state = {'for': 0}
        def rep(mm):
            kind, arg = mm.group(1), mm.group(2)
            if kind == 'inv':
                n = re.match(r'\d+', arg).group(0); k = arg[len(n):]
                user = ren(c.loops.get(int(n), ''), m)
                used.add(('loop', int(n)))
                if not k: return '\n' + user
                it, sq = f'kx_it{n}', f'kx_s{n}'
                blocks = {'invariant': '', 'invariant_except_break': '', 'ensures': '', 'decreases': ''}
                cur = 'invariant'
                for line in user.split('\n'):
                    w = line.strip().split(' ')[0]
                    if w in blocks: cur = w; line = line.strip()[len(w):]
                    blocks[cur] += line + '\n'
                auto = f'{it}.seq() == {sq}, 0 <= {it}.pos() <= {sq}.len(),'
                o = '\n'
                if blocks['invariant_except_break'].strip(): o += 'invariant_except_break\n' + blocks['invariant_except_break']
                o += 'invariant\n' + auto + '\n' + blocks['invariant']
                e = blocks['ensures']
                if k == 'f': e = f'{it}.pos() == {sq}.len(),\n' + e
                if e.strip(): o += 'ensures\n' + e
                o += 'decreases ' + (blocks['decreases'].strip() or f'{sq}.len() - {it}.pos()') + '\n'
                return o
            if kind == 'cl':
                used.add(('cl', int(arg)))
                return '@@CL%s@@' % arg
            if arg == 'before for':
                n = s._for_order(f)[state['for']]; state['for'] += 1
                return f'\nlet ghost kx_s{n} = kx_it{n}.seq();\n' + s.hints(c, m, ['before for ' + n], used)
            alts = arg.split(' ', 1)
            if alts[0] in ('before', 'after'):
                names = [alts[0] + ' ' + x for x in alts[1].split('|')]
            else: names = [arg]
            return s.hints(c, m, names, used)
        b = PH.sub(rep, f['body'])
        if c.hdr.get('maypanic') is not None: b = re.sub(r'\.\s*unwrap\(\)', '. kx_unwrap_mp()', b)   # R20
        for k, txt in c.cl.items():
            t = ren(txt.strip(), m)
            b = re.sub(r'@@CL%d@@\s*\(\s*(\|[^|]*\|)\s*\)' % k, lambda _: t + ' ', b)
        b = re.sub(r'@@CL\d+@@\s*\(\s*(\|[^|]*\|)\s*\)', lambda x: x.group(1) + ' ', b)
        lost = [a for a, _ in c.at if ('at', a) not in used] + [f'loop {n}' for n in c.loops if ('loop', n) not in used] + [f'closure {n}' for n in c.cl if ('cl', n) not in used]
        if lost: s.lost[key] = lost
        i = b.index('{')
        return b[:i + 1] + '\n' + pre + b[i + 1:]
    def _for_order(s, f):
        # "before for" placeholders appear in the same order as the for loops' own __kxinv
        return re.findall(r'__kxinv\s*\{\s*"(\d+)[fb]"\s*\}', f['body'])
    def hints(s, c, m, names, used):
        o = ''
        for a, t in c.at:
            if a in names:
                used.add(('at', a)); o += '\n' + ren(t, m)
        return o

    def emit_fn(s, key, f, c, in_trait_impl=False, trait_decl=False):
        m = rename_map(s.shapes[key], shape(f)) if key in s.shapes else {}
        sig = c.hdr.get('sig') or f['sig']
        name = c.hdr.get('name')
        rn = 'kx_' if (f.get('renamed') and not c.hdr.get('sig')) else ''
        sig = re.sub(r'^\s*fn\s+(\w+)', lambda x: 'fn ' + (name or rn + x.group(1)), sig)
        sig = re.sub(r'\bmut (\w+)\s*:', r'\1:', sig) if False else sig
        ret = c.hdr.get('rettype') or f['ret']
        o = '#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n' if c.hdr.get('isolate') is None else ''
        if c.hdr.get('attrs'): o += c.hdr['attrs'] + '\n'
        ext = key in s.external or c.hdr.get('trusted') is not None
        if ext: o = '#[verifier::external_body]\n'
        vis = '' if (in_trait_impl or trait_decl) else 'pub '
        o += vis + sig.strip()
        if ret.strip(): o += f' -> ({c.hdr.get("ret", "r")}: {ret.strip()})'
        if f.get('where') and not c.hdr.get('sig'): o += '\n' + f['where']
        spec = s.spec_of(f, c, m)
        o += '\n' + spec + '\n'
        if trait_decl and not f.get('has_default'): return o.rstrip() + ';\n'
        if ext: return o + '{ unimplemented!() }\n'
        return o + s.body(key, f, c) + '\n'

    def compose(s):
        out = ['#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_parens, unused_braces, unused_assignments, unreachable_code, non_snake_case)]',
               'use vstd::prelude::*;', 'use vstd::string::*;', 'verus!{', 'global size_of usize == 8;']
        regs = {}
        s.ranges = []   # (start,end,kind,key,module)
        mods = []
        def add(text, kind, key, mod):
            a = sum(x.count('\n') + 1 for x in out) + 1
            out.append(text)
            b = sum(x.count('\n') + 1 for x in out)
            s.ranges.append((a, b, kind, key, mod))
        bymod = {}
        for k, c in s.cons.items(): bymod.setdefault(c.mod, []).append(c)
        s.missing = [k for k in s.cons if k not in s.d['fns']]
        for kind, base in s.order:
            mod = ('l_' if kind == 'rs' else 'm_') + base
            mods.append(mod)
            out.append(f'pub mod {mod} {{ use vstd::prelude::*; use vstd::string::*; use super::*; use std::cmp::Ordering;')
            if kind == 'rs':
                t = s.rs[base]
                t = re.sub(r'//@struct (\w+)', lambda x: s.emit_struct(x.group(1)), t)
                t = re.sub(r'//@enum (\w+)[ \t]*([\w, ]*)', lambda x: s.emit_enum(x.group(1), x.group(2)), t)
                add(t, 'lemma', base, mod)
            else:
                impls, traits = {}, {}
                for c in bymod.get(base, []):
                    f = s.d['fns'].get(c.key)
                    if f is None: continue
                    for r in f['regexes']: regs[r['name']] = r
                    s.check_regs(c.key, f)
                    if c.hdr.get('free') is not None: add(s.emit_fn(c.key, f, c), 'fn', c.key, mod); continue
                    it = f.get('impl_of'); tr = f.get('impl_trait'); td = f.get('trait_decl')
                    if c.hdr.get('trait'): tr = c.hdr['trait']
                    if c.hdr.get('inherent'): it, tr = c.hdr['inherent'], None
                    if td: traits.setdefault(td, []).append(c)
                    elif it and tr: impls.setdefault((it, tr), []).append(c)
                    elif it:
                        out.append(f'impl {it} {{'); add(s.emit_fn(c.key, f, c), 'fn', c.key, mod); out.append('}')
                    else: add(s.emit_fn(c.key, f, c), 'fn', c.key, mod)
                for td, cs in traits.items():
                    out.append(f'pub trait {td}: Sized + NodeView {{')
                    for c in cs: add(s.emit_fn(c.key, s.d['fns'][c.key], c, trait_decl=True), 'fn', c.key, mod)
                    out.append('}')
                    # R2: dynamic dispatch = a match on the kind
                    out.append(f'impl {td} for DynNode {{')
                    for c in cs:
                        f = s.d['fns'][c.key]
                        if f.get('has_default'): continue
                        args = ', '.join(f['params'])
                        ret = f' -> (r: {f["ret"].strip()})' if f['ret'].strip() else ''
                        ndec = c.hdr.get('dispatch', '')
                        add(f'{f["sig"].strip()}{ret}\n{ndec}\n{{ match self {{ ' + ', '.join(f'DynNode::{k}(kx_n) => kx_n.{f["name"]}({args})' for k in ('Element', 'Text', 'Comment', 'CData')) + ' } }\n', 'dispatch', c.key, mod)
                    out.append('}')
                for (it, tr), cs in impls.items():
                    out.append(f'impl {tr} for {it} {{')
                    for c in cs: add(s.emit_fn(c.key, s.d['fns'][c.key], c, in_trait_impl=True), 'fn', c.key, mod)
                    out.append('}')
            out.append('}')
        # helpers without a contract (new functions): callable, but nothing is known about their result
        out.append('pub mod m_new { use vstd::prelude::*; use vstd::string::*; use super::*;')
        for k in s.new_fns():
            f = s.d['fns'][k]
            if f.get('trait_decl') or f.get('impl_trait') or f['unsupported']: continue
            t = '#[verifier::external_body]\npub ' + f['sig'] + (f' -> {f["ret"]}' if f['ret'].strip() else '') + '\n' + (f.get('where') or '') + ' { unimplemented!() }\n'
            if f.get('impl_of'): out.append(f'impl {f["impl_of"]} {{'); add(t, 'new', k, 'm_new'); out.append('}')
            else: add(t, 'new', k, 'm_new')
        out.append('}')
        out.append('pub mod m_regex { use vstd::prelude::*; use super::*;')
        for r in regs.values():
            if r.get('error'): t = f'#[verifier::external_body] pub fn {r["name"]}() -> (r: KxRegex) {{ unimplemented!() }}'
            else: t = f'#[verifier::external_body] pub fn {r["name"]}() -> (r: KxRegex) ensures forall|s: Seq<char>| #[trigger] r.lang(s) == re_is_match({str(r["start"]).lower()}, {str(r["end"]).lower()}, {r["re"]}, s) {{ unimplemented!() }}'
            add(t, 'regex', r['name'], 'm_regex')
        out.append('}')
        for m in mods + ['m_new', 'm_regex']: out.append(f'pub use {m}::*;')
        out.append('}\nfn main(){}')
        s.regs = regs
        return '\n'.join(out) + '\n'
    def check_regs(s, key, f): pass
    def contracted(s, modules):
        ms = [m.split('_', 1)[1] for m in modules if m.startswith('m_')]
        return [k for k, c in s.cons.items() if c.mod in ms and k in s.d['fns'] and c.hdr.get('trusted') is None and not (s.d['fns'][k].get('trait_decl') and not s.d['fns'][k].get('has_default'))]
    def guards(s, closed):
        """facts about the crate that contracts rely on but no single function carries"""
        g = s.shapes.get('__guard__', {}); o = []
        for k in s.new_fns():
            f = s.d['fns'][k]
            if f.get('impl_trait') or f.get('trait_decl'): o.append(f'{k}: new trait method without a contract')
        for n, x in s.d['structs'].items():
            if n in g['derives'] and x['derives'] != g['derives'][n]: o.append(f'{n}: derived traits changed from {g["derives"][n]} to {x["derives"]}')
        for n, e in s.d['enums'].items():
            if n in g['enums'] and e != g['enums'][n]: o.append(f'enum {n} changed')
        for x in s.d['others']:
            if x not in g['others']: o.append(f'new item: {x}')
        for k, f in s.d['fns'].items():
            for x in f.get('touch', []):
                if x in closed and x not in g['touch'].get(k, []): o.append(f'{k}: {x} outside the functions under contract for it')
        return o
    def trusted_list(s, modules):
        o = ['kxtract rewrite rules R1..R16 (DESIGN.md)', 'Verus 0.2026.09.13, Z3, rustc front end']
        ms = [m.split('_', 1)[1] for m in modules if m.startswith('m_')]; ls = [m.split('_', 1)[1] for m in modules]
        o += [f'assumed contract (not verified): {k}' for k, c in s.cons.items() if c.hdr.get('trusted') is not None and c.mod in ms]
        for fn in sorted(os.listdir(CON)):
            m = re.match(r'\d+_(\w+)\.rs$', fn)
            if not m or m.group(1) not in ls: continue
            t = open(os.path.join(CON, fn)).read()
            n = re.findall(r'external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct) (\w+)', t) + re.findall(r'(?:pub )?(?:broadcast )?axiom fn (\w+)', t)
            if n: o.append(f'contracts/{fn}: assumed (external_body, axiom): ' + ', '.join(dict.fromkeys(n)))
        return o
    def new_fns(s):
        return [k for k in s.d['fns'] if k not in s.cons and k not in s.shapes]
    def emit_struct(s, name):
        st = s.d['structs'].get(name)
        if st is None: return f'pub struct {name} {{ }}'
        dv = '#[derive(Debug)]\n' if 'Debug' in ' '.join(st['derives']) and st['file'] == 'errors.rs' else ''
        return dv + f'pub struct {name} {{ ' + ', '.join(f'pub {x["name"]}: {x["ty"]}' for x in st['fields']) + ' }'
    def emit_enum(s, name, derive=''):
        e = s.d['enums'].get(name)
        if e is None: return f'pub enum {name} {{ }}'
        return (f'#[derive({derive})]\n' if derive else '') + f'pub enum {name} {{ ' + ', '.join(v['name'] + (('(' + ', '.join(v['fields']) + ')') if v['fields'] else '') for v in e['variants']) + ' }'

def run_verus(path, modules, threads=8, rlimit=30, extra=(), timeout=800):
    cmd = ['verus', os.path.basename(path), '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json',
           '--multiple-errors', '4', '--num-threads', str(threads), '--rlimit', str(rlimit), *extra]
    for m in modules: cmd += ['--verify-only-module', m]
    t = time.time()
    try: r = sh(cmd, cwd=os.path.dirname(path), timeout=timeout)
    except subprocess.TimeoutExpired: return None, [], cmd, time.time() - t
    diags = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: out = json.loads(r.stdout)
    except ValueError: out = None
    if out is None and not diags: diags.append({'level': 'error', 'message': r.stderr[-1500:], 'spans': []})
    return out, diags, cmd, time.time() - t

def lines_of(d):
    ls = [(x['is_primary'], x['line_start'], x.get('label'), (x['text'][0]['text'].strip()[:160] if x.get('text') else '')) for x in d.get('spans', []) if x['file_name'].endswith('all.rs')]
    for c in d.get('children', []): ls += lines_of(c)
    return ls

def owner(comp, line):
    for a, b, k, key, mod in comp.ranges:
        if a <= line <= b: return (k, key, mod)
    return None

class Result: pass
def verify(modules, data=None, smoke=False, keep=None, rlimit=20, timeout=800):
    data = data or extract()
    cons, rs, order = load_contracts()
    comp = Composer(data, cons, rs, order, load_shapes()); comp.smoke = smoke
    for k, f in data['fns'].items():
        if k in cons and f['unsupported']: comp.external[k] = 'unsupported: ' + '; '.join(f['unsupported'])[:200]
    d = keep or BUILD
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'all.rs')
    R = Result(); R.comp = comp; R.tool_errors = []
    for attempt in range(12):
        open(path, 'w').write(comp.compose())
        out, diags, cmd, dt = run_verus(path, modules, rlimit=int(os.environ.get('RL', rlimit)), timeout=timeout)
        R.out, R.cmd, R.time = out, cmd, dt
        fails, bad = {}, {}
        vr = (out or {}).get('verification-results', {})
        vir = out is None or (vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0) or vr.get('encountered-vir-error')
        for g in diags:
            if g['level'] != 'error' or g['message'].startswith('aborting'): continue
            ls = lines_of(g)
            own = next((owner(comp, l[1]) for l in sorted(ls, key=lambda x: not x[0]) if owner(comp, l[1])), None)
            if vir or not own: bad.setdefault(own, []).append(g['message'] + ' ' + ' | '.join(f'{l[1]}: {l[3]}' for l in ls[:2]))
            else:
                # failed precondition: primary span may be in the callee; Verus marks the call site as primary
                fails.setdefault(own, []).append({'message': g['message'], 'at': [{'line': l[1], 'label': l[2], 'text': l[3]} for l in ls]})
        if not vir: break
        progress = False
        for own, msgs in bad.items():
            if own and own[0] == 'fn' and own[1] not in comp.external:
                comp.external[own[1]] = 'not accepted by the verifier front end: ' + msgs[0][:300]; progress = True
        R.tool_errors = [f'{o}: {m}' for o, ms in bad.items() for m in ms]
        if not progress: break
    R.vir = vir; R.fails = fails
    R.breakdown = []
    try:
        for m in out['times-ms']['smt']['smt-run-module-times']:
            for fb in m.get('function-breakdown', []): R.breakdown.append((fb['function'], fb['success'], fb['time-micros'], m['module']))
    except (KeyError, TypeError): pass
    R.verified = vr.get('verified', 0); R.errors = vr.get('errors', 0)
    return R

def smoke(modules, data=None):
    """vacuity guard: with assert(false) put at the start of every function under contract, every one of them must fail"""
    R = verify([m for m in modules if m.startswith('m_')], data=data, smoke=True, keep=os.path.join(BUILD, 'smoke'), timeout=600)
    want = [k for k in R.comp.contracted(modules) if k not in R.comp.external]
    bad = {own[1] for own in R.fails if own[0] == 'fn'}
    vac = [k for k in want if k not in bad]
    return {'functions': len(want), 'reachable': len(want) - len(vac), 'vacuous': vac, 'front_end_error': bool(R.vir)}

def main():
    a = sys.argv[1:]
    if a[0] == 'record':
        d = extract(); s = {k: shape(f) for k, f in sorted(d['fns'].items())}
        s['__guard__'] = {'touch': {k: f.get('touch', []) for k, f in d['fns'].items() if f.get('touch')}, 'derives': {k: x['derives'] for k, x in d['structs'].items()}, 'others': d['others'], 'enums': d['enums']}
        json.dump(s, open(SHAPES, 'w'), indent=0, sort_keys=True)
        import literals; literals.record(REPO)
    elif a[0] == 'verify':
        R = verify(a[1:], timeout=int(os.environ.get('T','100')))
        print('vir error' if R.vir else 'ok', R.verified, R.errors, '%.1fs' % R.time)
        for k, r in R.comp.external.items(): print('EXTERNAL', k, r)
        for k, l in R.comp.lost.items(): print('LOST', k, l)
        print('MISSING', R.comp.missing) if R.comp.missing else 0
        if R.vir: print('\n'.join(R.tool_errors[:30]))
        for o, fs in R.fails.items():
            for f in fs:
                print('FAIL', o, f['message'])
                for l in f['at']: print('     ', l['line'], l['label'], '::', l['text'])
        slow = sorted(R.breakdown, key=lambda x: -x[2])[:6]
        print('slow', [(f, t // 1000) for f, _, t, _ in slow if t > 500000])
    elif a[0] == 'smoke': print(smoke(a[1:]))
    elif a[0] == 'show':
        d = extract(); 
        for k in a[1:]:
            f = d['fns'][k]; print(k, {x: y for x, y in f.items() if x not in ('body',)}); print(PH.sub(lambda m: '/*' + (m.group(1) or '') + ' ' + m.group(2) + '*/', f['body']))
if __name__ == '__main__': main()
