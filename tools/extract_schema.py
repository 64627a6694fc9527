#!/usr/bin/env python3
"""Development-time tool (no check runs it): reads the generated ISO 20022 sources once
and writes the reference schema that the checks treat as the specification
(/verif/spec/schema.json).  It was run on the pinned commit; afterwards schema.json is
frozen and only ever compared with what the compiled code does.

usage: extract_schema.py REPO OUT.json"""
import json, os, re, sys, glob

TOK = re.compile(r'\s+|//[^\n]*|(r#)?[A-Za-z_][A-Za-z0-9_]*|"(?:\\.|[^"\\])*"|[0-9]+|::|->|&&|[{}()\[\]<>,.;:&=#|!?*+\-/]')

def tokens(src):
    pos, out = 0, []
    while pos < len(src):
        m = TOK.match(src, pos)
        assert m, src[pos:pos+80]
        t = m.group(0)
        pos = m.end()
        if not t.strip() or t.startswith('//'):
            continue
        out.append(t)
    return out

class P:
    def __init__(s, t): s.t, s.i = t, 0
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else None
    def nxt(s): s.i += 1; return s.t[s.i-1]
    def eat(s, *xs):
        for x in xs:
            assert s.peek() == x, (x, s.t[max(0, s.i-10):s.i+10])
            s.i += 1
    def opt(s, x):
        if s.peek() == x: s.i += 1; return True
        return False

def unq(t): return json.loads(t.replace("\\'", "'")) if "\\'" in t else rust_str(t)
def rust_str(t):
    out, i, b = [], 0, t[1:-1]
    while i < len(b):
        c = b[i]
        if c == '\\':
            i += 1
            out.append({'n': '\n', 'r': '\r', 't': '\t', '\\': '\\', '"': '"', "'": "'"}[b[i]])
        else: out.append(c)
        i += 1
    return ''.join(out)

def attrs(p):
    """consume #[...]* ; return dict"""
    d = {}
    while p.peek() == '#':
        p.eat('#', '[')
        depth, toks = 1, []
        while depth:
            t = p.nxt()
            if t == '[': depth += 1
            elif t == ']':
                depth -= 1
                if not depth: break
            toks.append(t)
        if toks[0] == 'serde':
            body = toks[2:-1]; j = 0
            while j < len(body):
                k = body[j]
                if j+1 < len(body) and body[j+1] == '=':
                    assert k in ('rename', 'skip_serializing_if'), body
                    d[k] = rust_str(body[j+2]); j += 3
                else: raise AssertionError(body)
                if j < len(body): assert body[j] == ','; j += 1
        elif toks[0] == 'default': d['default'] = True
        elif toks[0] == 'derive': pass
        else: raise AssertionError(toks)
    return d

def ty(p):
    t = p.nxt()
    if p.opt('<'):
        inner = ty(p); p.eat('>')
        return [t, inner]
    return t

def expr(p):
    """&self.f | self.f | val | item | &val.."""
    amp = p.opt('&')
    t = p.nxt()
    if t == 'self':
        p.eat('.'); return 'self.' + p.nxt()
    assert t in ('val', 'item'), t
    return t

def bound(p):
    t = p.nxt()
    if t == 'None': return None
    assert t == 'Some'
    p.eat('('); v = int(p.nxt()); p.eat(')'); return v

def cpath(p):
    p.eat('&', 'helpers', '::', 'child_path', '(', 'path', ',')
    s = rust_str(p.nxt()); p.eat(')'); return s

def stmts(p, ctx, out):
    while p.peek() != '}':
        t = p.peek()
        if t == 'helpers':
            p.eat('helpers', '::'); fn = p.nxt(); p.eat('(')
            e = expr(p); p.eat(',')
            name = rust_str(p.nxt()); p.eat(',')
            c = dict(ctx); c['expr'] = e; c['label'] = name
            if fn == 'validate_length':
                c['kind'] = 'len'; c['min'] = bound(p); p.eat(','); c['max'] = bound(p); p.eat(',')
            elif fn == 'validate_pattern':
                c['kind'] = 'pat'; c['pattern'] = rust_str(p.nxt()); p.eat(',')
            else: raise AssertionError(fn)
            c['path'] = cpath(p); p.eat(',', 'config', ',', 'collector'); p.opt(','); p.eat(')', ';')
            out.append(c)
        elif t == 'if':
            p.eat('if', 'let', 'Some', '(', 'ref'); v = p.nxt(); p.eat(')', '=', 'self', '.'); f = p.nxt()
            c = dict(ctx); c['opt'] = f
            if p.opt('&&'):
                p.eat('config', '.', 'validate_optional_fields'); c['guard'] = True
            p.eat('{'); stmts(p, c, out); p.eat('}')
        elif t == 'for':
            p.eat('for', 'item', 'in'); c = dict(ctx)
            if p.opt('&'):
                p.eat('self', '.'); c['loop'] = p.nxt()
            else:
                p.eat('vec'); c['loop'] = ctx['opt']
            p.eat('{'); stmts(p, c, out); p.eat('}')
        else:
            e = expr(p); p.eat('.', 'validate', '(')
            c = dict(ctx); c['expr'] = e; c['kind'] = 'nested'; c['path'] = cpath(p)
            p.eat(',', 'config', ',', 'collector'); p.opt(','); p.eat(')', ';')
            out.append(c)

def module(path):
    p = P(tokens(open(path).read()))
    types, checks = {}, {}
    while p.peek() is not None:
        if p.peek() == 'use':
            while p.nxt() != ';': pass
            continue
        a = attrs(p)
        t = p.nxt()
        if t == 'impl':
            p.eat('Validate', 'for'); n = p.nxt(); p.eat('{', 'fn', 'validate', '(', '&', 'self', ',')
            while p.nxt() != '{': pass
            out = []; stmts(p, {}, out); p.eat('}', '}')
            assert n not in checks; checks[n] = out
            continue
        assert t == 'pub', t
        k = p.nxt(); n = p.nxt(); p.eat('{')
        ent = {'kind': k, 'rename': a.get('rename')}
        if k == 'struct':
            fs = []
            while p.peek() != '}':
                fa = attrs(p); p.eat('pub'); rn = p.nxt(); p.eat(':'); tt = ty(p); p.opt(',')
                fs.append({'rust': rn, 'name': fa.get('rename', rn), 'has_rename': 'rename' in fa, 'skip': fa.get('skip_serializing_if'), 'ty': tt})
            ent['fields'] = fs
        elif k == 'enum':
            vs = []
            while p.peek() != '}':
                fa = attrs(p); v = p.nxt()
                assert p.peek() in (',', '}'), p.peek()
                p.opt(','); vs.append({'variant': v, 'code': fa.get('rename', v), 'default': fa.get('default', False)})
            ent['variants'] = vs
        else: raise AssertionError(k)
        p.eat('}')
        assert n not in types; types[n] = ent
    assert set(types) == set(checks), set(types) ^ set(checks)
    for n in types: types[n]['checks'] = checks[n]
    return types

def norm(types, modname):
    """flatten to the form the harness uses"""
    out = {}
    warn = []
    for n, e in types.items():
        if e['kind'] == 'enum':
            assert not e['checks']
            out[n] = {'enum': [v['code'] for v in e['variants']]}
            continue
        fs = []
        for f in e['fields']:
            t = f['ty']; card = 'one'
            if isinstance(t, list) and t[0] == 'Option': card = 'opt'; t = t[1]
            if isinstance(t, list) and t[0] == 'Vec': card = 'optvec' if card == 'opt' else 'vec'; t = t[1]
            if isinstance(t, list) and t[0] == 'Box': t = t[1]
            assert isinstance(t, str), t
            if (f['skip'] is not None) != card.startswith('opt'): warn.append((n, f['name'], 'skip/card'))
            if not f['has_rename']: warn.append((n, f['name'], 'no rename'))
            g = {'name': f['name'], 'card': card, 'ty': t}
            cs = []
            for c in e['checks']:
                tgt = c.get('loop') or c.get('opt') or c['expr'].split('.', 1)[-1]
                if tgt != f['rust']: continue
                # consistency of the access path with the cardinality
                assert bool(c.get('loop')) == (card in ('vec', 'optvec')), (modname, n, f, c)
                assert bool(c.get('opt')) == card.startswith('opt'), (modname, n, f, c)
                d = {'k': c['kind']}
                if c['kind'] == 'len': d.update(min=c['min'], max=c['max'])
                if c['kind'] == 'pat': d['pattern'] = c['pattern']
                if c.get('guard'): d['guard'] = True
                if c['path'] != f['name']: d['path'] = c['path']; warn.append((n, f['name'], 'path', c['path']))
                if c['kind'] != 'nested' and c['label'] != f['name']: d['label'] = c['label']; warn.append((n, f['name'], 'label', c['label']))
                cs.append(d)
            g['checks'] = cs
            fs.append(g)
        assert sum(len(g['checks']) for g in fs) == len(e['checks']), (modname, n)
        out[n] = {'fields': fs, 'rename': e['rename']}
    return out, warn

def main(repo, outp):
    res = {}
    for kind in ('document', 'header'):
        for f in sorted(glob.glob(f'{repo}/src/{kind}/*.rs')):
            m = os.path.basename(f)[:-3]
            if m == 'mod': continue
            types, warn = norm(module(f), m)
            for w in warn: print('WARN', m, *w)
            used = {g['ty'] for t in types.values() if 'fields' in t for g in t['fields']}
            roots = [n for n in types if n not in used]
            res[m] = {'kind': kind, 'roots': roots, 'types': types}
            print(m, len(types), 'roots', roots)
    json.dump({'modules': res}, open(outp, 'w'), indent=1, sort_keys=True)
main(*sys.argv[1:])
