"""The programs of C06 and C07."""
import itertools
from gen import *

U8 = ('u8',)
STR = ('String',)


def graphs(k, edges_sets, assigns, form_sets, wraps, orders):
    out = []
    for e in edges_sets:
        for a in assigns:
            for fi, forms in enumerate(form_sets):
                for o in orders:
                    p = Program(f'graph{k}|{"".join(f"{x}{y} " for x, y in e).strip()}|{"".join(map(str, a))}|{"-".join(forms)}|{o}')
                    for i in range(max(a) + 1):
                        p.namespace('AbC'[i] if i < 3 else f'N{i}', ['Ns', 'Ns2', 'other_ns'][i])
                    for i in range(k):
                        refs = [wrap(wraps[(x * 5 + y * 3 + fi) % len(wraps)], ('ref', y)) for x, y in e if x == i]
                        if forms[i] == 'newtype':
                            refs = [wrap('Vec', refs[0] if len(refs) == 1 else ('tuple', *refs))] if refs else []
                        p.type(['One', 'Two', 'Three'][i], a[i], forms[i], refs)
                    for i in range(k):
                        p.method(a[(i + 1) % k], f'get{i}', [('arg', ('ref', i))], ('ref', i))
                    n = len(p.ns) + k
                    p.order = list(range(n)) if o == 'fwd' else list(range(n))[::-1]
                    p.backend(range(max(a) + 1))
                    out.append(p)
    return out


def corpus06(tier):
    T = tier == 'thorough'
    out = []
    # every digraph on two types, in one namespace and in two, declared in either order
    pairs = [(0, 0), (0, 1), (1, 0), (1, 1)]
    e2 = [c for n in range(5) for c in itertools.combinations(pairs, n)]
    F = FORMS
    fs = [(F[i], F[(i + s) % 7]) for s in (range(7) if T else (1,)) for i in range(7)]
    out += graphs(2, e2, [(0, 0), (0, 1)], fs, WRAPS, ['fwd', 'rev'] if T else ['fwd'])
    out += graphs(2, e2[::3], [(0, 1)], fs[:2], WRAPS, ['rev'])
    # every digraph on three types (without loops)
    trip = [(x, y) for x in range(3) for y in range(3) if x != y or T]
    e3 = [c for n in range(len(trip) + 1) for c in itertools.combinations(trip, n)]
    out += graphs(3, e3, [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 1, 2)] if not T else [(0, 0, 1), (0, 1, 2)], [('named', 'ext', 'tuple')] + ([('int', 'named', 'adj')] if T else []), WRAPS, ['fwd'])
    # every form with every wrapper around a reference to itself, to its own and to the other namespace
    for f in FORMS:
        for w in WRAPS + ['Box', 'plain', 'Arr', 'Opt', 'Tup', 'Res']:
            for where in (['self'] if w in WRAPS else []) + ['same', 'cross']:
                p = Program(f'wrap|{f}|{w}|{where}')
                p.namespace('Na')
                p.namespace('Nb', 'n_b')
                p.type('Target', 1 if where == 'cross' else 0)
                p.type('Holder', 0, f, [wrap(w, ('ref', 1 if where == 'self' else 0))])
                p.method(0, 'hold', [('h', ('ref', 1))], ('ref', 1))
                p.method(1, 'hold_all', [('h', ('Vec', ('ref', 1)))], ('Vec', ('ref', 1)), 'stream')
                p.backend([0, 1])
                out.append(p)
    # every ordered set of namespaces as a backend
    for empties in range(8):
        p = Program(f'backends|{empties}', keep=empties == 0)
        for i in range(3):
            p.namespace(['First', 'Second', 'Third'][i], [None, 'first', 'First2'][i])
            if empties >> i & 1 == 0 or i == 2:
                a = p.type(['Thing', 'Thing2', 'Thing'][i], i, 'named', [], mod=[None, None, 'inner'][i])
                p.type(['Other', 'OtherThing', 'Thin'][i], i, 'ext', [('OptBox', ('ref', a))])
            if empties >> i & 1 == 0:
                p.method(i, 'get', [('n', U8)], U8)
                p.method(i, ['get2', 'ge', 'list'][i], [('n', STR)], STR, ['method', 'stream', 'boxed'][i])
        p.backend([], 'unit')
        for n in (1, 2, 3):
            for s in itertools.permutations(range(3), n):
                for style in ('tuple', 'named', 'namedrev'):
                    if style == 'tuple' or (n > 1 and (T or empties in (0, 5))):
                        p.backend(s, style)
        out.append(p)
    # numbers of members
    for t in range(5):
        for m in range(5):
            for extra in (0, 1):
                p = Program(f'members|{t}|{m}|{extra}')
                p.namespace('Main')
                if extra:
                    p.namespace('Rest')
                for i in range(t):
                    p.type(f'T{i}', 0, FORMS[(i + m) % 7], [])
                for i in range(m):
                    p.method(0, f'm{i}', [('a', ('ref', j)) if j < t else ('a', U8) for j in [i]], ('ref', i) if i < t else ('unit',), ['method', 'stream', 'boxed'][(i + t) % 3])
                p.backend(range(extra + 1))
                out.append(p)
    # layouts of Rust modules, renamed types and namespaces
    for style in ('tuple', 'named'):
        for na, nb in [(None, 'Beta'), ('alpha', 'alpha2'), ('X', 'x'), ('a.b', 'a.c'), ('_', '__'), ('Über', 'ns'), ('type', 'of')]:
            for ra, rb in [(None, None), ('User', 'User'), ('user', 'User2'), ('Ω', '_x'), ('$t', 't$')]:
                p = Program(f'layout|{style}|{na}|{nb}|{ra}|{rb}', keep=style == 'tuple' and ra is None)
                p.namespace('Main', na, 'one')
                p.namespace('Main', nb, 'two')
                p.type('User', 0, 'named', [('Vec', ('ref', 1))], client=ra, mod=None)
                p.type('Item', 1, 'ext', [('OptBox', ('ref', 0)), ('Map', STR, ('ref', 1))], client=rb, mod='two')
                p.type('Local', 1, 'named', [('ref', 1), ('Vec', ('ref', 0))], mod='three')
                p.method(0, 'get', [('u', ('ref', 0)), ('i', ('ref', 1))], ('ref', 2))
                p.method(1, 'get', [('i', ('ref', 1))], ('ref', 0), 'stream')
                p.backend([0, 1], style)
                p.backend([1, 0], style)
                out.append(p)
    # names of types, methods and arguments
    for n in TYPE_NAMES:
        p = Program(f'typename|{n}', keep=n == 'a')
        p.namespace('Main')
        p.namespace('Rest', 'rest')
        p.type('Ty', 0, 'named', [('Vec', ('ref', 1))], client=n)
        p.type('User', 0, 'named', [('OptBox', ('ref', 0)), ('OptBox', ('ref', 2))])
        p.type('Far', 1, 'ext', [('OptBox', ('ref', 0))])
        p.method(0, 'get', [('a', ('ref', 0))], ('ref', 0))
        p.method(0, 'watch', [], ('ref', 0), 'stream')
        p.backend([0, 1])
        out.append(p)
    for n in METHOD_NAMES:
        for kind in ('method', 'stream'):
            p = Program(f'methodname|{n}|{kind}')
            p.namespace('Main')
            p.namespace('Rest', 'rest')
            p.type('User', 0, 'named', [('OptBox', ('ref', 0))])
            p.method(0, n, [('a', ('ref', 0)), ('b', U8)], ('ref', 0), kind)
            p.method(0, 'neighbour', [('a', ('ref', 0))], U8, 'method')
            p.method(1, 'neighbour', [], U8, 'stream')
            p.backend([0, 1])
            out.append(p)
    for n in ARG_NAMES:
        for kind in ('method', 'stream'):
            p = Program(f'argname|{n}|{kind}', keep=n in ('main', 'rest'))
            p.namespace('Main', 'main')
            p.namespace('Rest', 'rest')
            p.type('User', 0, 'named', [('OptBox', ('ref', 0))])
            p.type('Far', 1, 'named', [])
            q = n.removeprefix('r#')
            p.method(0, 'with', [], U8) if False else None
            p.method(0, 'one', [(n, ('ref', 0))], U8, kind)
            p.method(0, 'two', [(n, ('ref', 0)), (q + '_', ('Vec', ('ref', 1)))], U8, kind)
            p.method(0, 'three', [('x', ('ref', 1)), (n, U8), (q + '__', STR)], U8, kind)
            p.backend([0, 1])
            out.append(p)
    # two namespaces with one name in a binary, each in a backend of its own
    for style in ('tuple', 'named'):
        p = Program(f'shared|{style}')
        for i, mod in enumerate(('one', 'two')):
            p.namespace('Main', 'dup', mod)
            p.type('ABc'[i], i, 'named', [], mod=mod)
            p.method(i, 'xy'[i], [('a', ('ref', i))], U8)
        p.backend([0], style)
        p.backend([1], style)
        out.append(p)
    # members named like a namespace, like each other, or like a global of the module
    for what, name in [('type', 'own'), ('type', 'other'), ('method', 'own'), ('method', 'other'), ('type', 'method'), ('type', 'Map'), ('type', 'Set'), ('type', 'Array'), ('type', 'Promise'), ('type', 'Store')]:
        p = Program(f'member|{what}|{name}')
        p.namespace('Main')
        p.namespace('Rest', 'rest')
        p.keep = True
        p.ns[0]['name'], p.ns[1]['name'] = f'own_{what}_{name}', f'other_{what}_{name}'
        n = {'own': p.ns[0]['name'], 'other': p.ns[1]['name'], 'method': 'both'}.get(name, name)
        p.type('Ty', 0, 'named', [('Vec', U8)], client=n if what == 'type' else None)
        p.type('User', 0, 'named', [('OptBox', ('ref', 0)), ('OptBox', ('ref', 2)), ('Map', STR, U8), ('Vec', ('Vec', U8))])
        p.type('Far', 1, 'named', [('OptBox', ('ref', 0))])
        p.method(0, n if what == 'method' else 'both', [('a', ('ref', 1))], U8)
        p.method(0, 'watch', [('a', ('ref', 2))], ('ref', 0), 'stream')
        p.backend([0, 1])
        out.append(p)
    for i, p in enumerate(out):
        p.i = i
    return out


TYPE_NAMES = ['a', '_', '__proto', 'type', 'of', 'async', 'await_', 'self', 'crate', 'dyn', 'fn', 'match', 'नमस्ते', 'Record', 'Date', 'Object', 'String', 'Number', 'Boolean', 'Function', 'Error', 'Symbol', 'JSON', 'IArguments', 'request', 'subscribe', 'execute', 'CONNECTION', 'WebSocket', 'websocketStore', 'req_id', 'declare', 'module', 'namespace', 'abstract', 'is', 'keyof', 'infer', 'readonly', 'require', 'exports', 'ZodType', 'constructor', 'toString', 'hasOwnProperty', 'Über', 'A1', 'parse', 'lazy', 'Infinity', 'NaN', 'from', 'set', 'globalThis', 'self', 'Partial']
METHOD_NAMES = ['a', '_x', '__', 'r#type', 'r#async', 'of', 'get', 'set', 'request', 'subscribe', 'execute', 'call', 'args', 'clone', 'fmt', 'eq', 'deserialize', 'generate', 'handle_request', 'rpc_members', 'members', 'r#match', 'r#move', 'r#fn', 'r#loop', 'declare', 'module', 'namespace', 'require', 'exports', 'constructor', 'to_string', 'id', 'sender', 'ctx', 'value', 'drop', 'poll', 'next', 'parse', 'lazy', 'name', 'length', 'prototype', 'über', 'res', 'err', 'from', 'into', 'default_', 'UPPER', 'mixedCase', 'websocketStore', 'globalThis', 'undefined']
ARG_NAMES = ['a', 'n', '_unused', '__', 'z', 'rest', 'main', 'request', 'subscribe', 'arguments', 'eval', 'class', 'delete', 'new', 'null', 'undefined', 'function', 'this', 'var', 'void', 'r#let', 'r#const', 'with', 'import', 'export', 'default', 'switch', 'case', 'throw', 'instanceof', 'debugger', 'finally', 'catch', 'extends', 'implements', 'interface', 'package', 'private', 'public', 'protected', 'static_', 'r#yield', 'r#await', 'r#async', 'r#typeof', 'r#type', 'r#match', 'r#in', 'r#for', 'args', 'id', 'sender', 'ctx', 'req', 'req_id', 'value', 'call', 'backend', 'subscribers', 'res', 's', 'Promise', 'Store', 'lazy', 'z_', 'declare', 'of', 'get', 'set', 'name', 'de', 'D', 'T', 'S', 'err', 'evt', 'st', 'jh', 'deserializer', 'method', 'namespace', 'r#break', 'r#continue', 'r#do', 'r#enum', 'r#false', 'r#static', 'r#true', 'r#try', 'r#while', 'r#if', 'r#else', 'r#return', 'r#virtual', 'r#abstract', 'r#final', 'r#mut', 'r#pub', 'r#loop', 'r#dyn', 'r#where', 'r#use', 'r#impl', 'r#struct', 'r#trait', 'r#as', 'r#box', 'r#macro', 'r#override', 'r#priv', 'r#unsized', 'r#become', 'r#fn', 'r#mod', 'r#move', 'r#ref', 'r#extern', 'r#unsafe']


# ---------------------------------------------------------------------------------------- C07
VALUE_TYPES = [('u8',), ('i32',), ('u64',), ('f64',), ('bool',), ('char',), ('String',), ('unit',), ('usize',), ('Option', U8), ('Option', STR), ('Vec', U8), ('Vec', STR), ('array', U8, 2), ('tuple', U8, STR), ('tuple', U8,), ('Map', STR, U8), ('Map', U8, STR), ('Set', U8), ('Result', U8, STR), ('Box', U8),
               ('Option', ('Option', U8)), ('Option', ('Vec', U8)), ('Vec', ('Option', U8)), ('Vec', ('Vec', U8)), ('Vec', ('tuple', U8, ('bool',))), ('tuple', ('tuple', U8, U8), U8), ('Map', STR, ('Vec', U8)), ('Map', STR, ('Map', STR, U8)), ('Vec', ('Map', STR, U8)), ('Vec', ('Set', U8)), ('Option', ('Map', STR, U8)), ('Result', ('Vec', U8), ('Option', U8)), ('Vec', ('Result', U8, STR)), ('array', ('Vec', U8), 2), ('tuple', ('Option', U8), ('Vec', STR), ('Map', STR, U8)), ('Vec', ('unit',)), ('Option', ('unit',)), ('Vec', ('f64',)), ('Map', STR, ('Set', U8)),
               *[(x,) for x in ('i8', 'u16', 'i16', 'u32', 'i64', 'isize', 'f32')], *[('Map', (k,), U8) for k in ('i8', 'u16', 'i32', 'u32', 'i64', 'u64', 'usize', 'isize', 'char', 'bool')], *[('Vec', (x,)) for x in ('i64', 'f32', 'char', 'bool')], ('Option', ('i64',)), ('Set', STR), ('Set', ('char',)), ('Set', ('i64',)), ('Map', ('char',), ('Map', ('i32',), STR))]


def corpus07(tier):
    T = tier == 'thorough'
    out = []
    # every list of argument types
    kinds = [('u8',), ('String',), ('Option', U8), ('Vec', U8), ('ref', 0), ('Map', STR, U8)]
    lists = [c for n in range(4 if not T else 5) for c in itertools.product(range(len(kinds)), repeat=n)]
    lists += [tuple((i + j) % 6 for i in range(n)) for n in ((4, 5, 6, 7, 12) if not T else (5, 6, 7, 8, 12)) for j in range(6)]
    for kind in ('method', 'stream', 'boxed'):
        sel = lists if kind == 'method' else [l for i, l in enumerate(lists) if len(l) < 3 or i % 6 == 1] if not T else [l for i, l in enumerate(lists) if len(l) < 4 or i % 6 == 1]
        for c in range(0, len(sel), 24):
            p = Program(f'args|{kind}|{c}')
            p.namespace('Main', None if c % 48 else 'main_ns')
            p.type('User', 0, 'named', [('OptBox', ('ref', 0))])
            for l in sel[c:c + 24]:
                p.method(0, 'm' + ''.join(map(str, l)), [(f'a{i}', kinds[x]) for i, x in enumerate(l)], ('ref', 0) if len(l) == 2 else U8, kind)
            p.backend([0])
            out.append(p)
    # every type as argument, as result and as item
    for c in range(0, len(VALUE_TYPES), 10):
        p = Program(f'values|{c}')
        p.namespace('Main')
        for i, t in enumerate(VALUE_TYPES[c:c + 10]):
            p.method(0, f'take{c + i}', [('v', t)], t)
            p.method(0, f'give{c + i}', [], t)
            p.method(0, f'watch{c + i}', [('v', t)], t, 'stream')
            p.method(0, f'follow{c + i}', [], t, 'boxed')
            p.method(0, f'both{c + i}', [('v', t), ('w', t)], U8)
        p.backend([0])
        out.append(p)
    # integers beyond 64 bits
    p = Program('integers')
    p.namespace('Main')
    for t in ('u128', 'i128'):
        p.method(0, f'take_{t}', [('v', (t,))], (t,))
        p.method(0, f'keys_{t}', [('v', ('Map', (t,), U8))], ('Map', (t,), U8))
        p.method(0, f'watch_{t}', [('v', (t,))], (t,), 'stream')
    p.backend([0])
    out.append(p)
    # every form of a user type
    for f in FORMS:
        for w in ['plain', 'Vec', 'Opt', 'MapOf', 'Tup', 'Res', 'Arr', 'Box']:
            p = Program(f'forms|{f}|{w}')
            p.namespace('Main')
            p.namespace('Rest', 'rest')
            p.type('Target', 1, 'ext', [('OptBox', ('ref', 1))])
            p.type('Holder', 0, f, [('Vec', ('ref', 0)), ('OptBox', ('ref', 1))][:1 if f == 'newtype' else 2])
            t = wrap(w, ('ref', 1))
            p.method(0, 'take', [('v', t)], t)
            p.method(1, 'take', [('v', t)], t, 'stream')
            p.method(1, 'follow', [('n', U8), ('v', t)], t, 'boxed')
            p.backend([0, 1])
            out.append(p)
    # the same method names in several namespaces, in every order and style of backend
    for s in itertools.permutations(range(3)):
        for style in ('tuple', 'named', 'namedrev'):
            p = Program(f'layouts|{"".join(map(str, s))}|{style}', keep=style == 'tuple')
            for i in range(3):
                p.namespace(['A', 'B', 'C'][i], [None, 'a', 'AB'][i])
                for j, (m, k) in enumerate([('get', 'method'), ('get_all', 'stream'), ('ge', 'method'), ('set', 'method'), ('Get', 'boxed')]):
                    if (i + j) % 4:
                        p.method(i, m, [('n', U8), ('s', STR)][:1 + (i + j) % 2], U8, k)
            p.backend(s, style)
            p.backend(s[:2], style)
            out.append(p)
    base = 0
    names = [p for p in corpus06('quick') if p.key.split('|')[0] in ('methodname', 'argname', 'layout', 'backends', 'wrap' if T else 'none')]
    for i, p in enumerate(out + names):
        p.i = i
    return out + names
