"""C25: the debug and the release build of the library behave alike.

The program is resolved twice, with and without NDEBUG.  (a) What the assertions evaluate has no effect that outlives the evaluation (effect summaries over the call graph).
(b) Apart from assertions the two resolved programs coincide; a statement present in one of them only must be free of effects as well."""
import json
import re
from .base import *
from .. import frontend
from ..engine import walk

ABORTS = {'abort', '__assert_fail', 'terminate', '__assert', '__assert_perror_fail', '__builtin_trap', '__builtin_unreachable', '__builtin_abort', '__assert_rtn'}
MUTATORS = {'insert', 'erase', 'push_back', 'push_front', 'pop_back', 'pop_front', 'push', 'pop', 'emplace', 'emplace_back', 'emplace_front', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'clear', 'assign',
            'resize', 'swap', 'reset', 'release', 'merge', 'extract', 'splice', 'remove', 'remove_if', 'unique', 'reverse', 'sort', 'seed', 'discard', 'append', 'replace', 'fill', 'operator=', 'operator+=', 'operator-=',
            'operator*=', 'operator/=', 'operator++', 'operator--', 'put', 'write', 'flush', 'get_next', 'getline', 'read', 'ignore', 'setstate', 'param', 'reserve', 'rehash', 'shrink_to_fit', 'insert_after', 'erase_after',
            'store', 'exchange', 'fetch_add', 'fetch_sub', 'lock', 'unlock', 'wait', 'notify_one', 'notify_all', 'set_value', 'open', 'close', 'precision', 'width', 'setf', 'unsetf', 'str', 'rdbuf'}
QUIET = {'reserve', 'rehash', 'shrink_to_fit', 'lock', 'unlock'}      # leave the value alone
ALGOS = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'reverse', 'rotate', 'shuffle', 'random_shuffle', 'remove', 'remove_if', 'unique', 'replace', 'replace_if', 'fill', 'fill_n', 'generate', 'generate_n', 'iota',
         'swap', 'iter_swap', 'swap_ranges', 'partition', 'stable_partition', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'next_permutation', 'prev_permutation', 'inplace_merge', 'exchange', 'advance', 'getline',
         'copy', 'copy_if', 'copy_n', 'move_backward', 'copy_backward', 'transform', 'partial_sum', 'adjacent_difference', 'merge', 'set_union', 'set_intersection', 'set_difference', 'unique_copy', 'remove_copy',
         'remove_copy_if', 'replace_copy', 'reverse_copy', 'partition_copy', 'uninitialized_fill', 'erase_if', 'erase'}
OUT_LAST = {'copy': 2, 'copy_if': 2, 'copy_n': 2, 'move_backward': 2, 'copy_backward': 2, 'transform': -2, 'partial_sum': 2, 'adjacent_difference': 2, 'merge': 4, 'set_union': 4, 'set_intersection': 4, 'set_difference': 4,
            'unique_copy': 2, 'remove_copy': 2, 'remove_copy_if': 2, 'replace_copy': 2, 'reverse_copy': 2, 'partition_copy': 2}
IO = {'printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fputc', 'fopen', 'fclose', 'fwrite', 'fread', 'fflush', 'remove', 'rename', 'system', 'setenv', 'unsetenv', 'signal', 'srand', 'rand', 'exit', '_exit', 'quick_exit', 'raise',
      'setlocale', 'atexit', 'scanf', 'fscanf', 'getchar', 'gets', 'fgets', 'perror', 'malloc', 'free', 'memcpy', 'memset', 'memmove', 'strcpy', 'strcat', 'sleep', 'usleep'}
IO_FREE = {'malloc', 'free'}
ENG = ('mersenne_twister', 'linear_congruential', 'subtract_with_carry', 'discard_block', 'shuffle_order', 'independent_bits', '_distribution<', 'random_device')


def last(q):
    q = str(q or '')
    m = re.search(r'operator\s*(\(\)|\[\]|[^\w\s(]+)', q)
    if m:
        return 'operator' + m.group(1)
    q = re.sub(r'<.*>', '', q.split('(')[0])
    return q.split('::')[-1]


def std(n):
    q = str(n.get('q') or n.get('f') or '')
    return q.startswith(('std::', '__gnu', '::std'))


class Effects:
    """which outside state evaluating a construct may change: 'this', ('param', i), 'global NAME', 'io'"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.busy = set()
        self.lookups = []
        self.fields = {}
        for c in p.classes.values():
            for f in c['fields']:
                self.fields.setdefault(c['q'] + '::' + f['n'], f)
        self.slots = {}          # field -> functions stored there
        for f in p.funcs.values():
            for part in (f.get('body'), f.get('inits')):
                if part is None:
                    continue
                for n in walk(part):
                    if n.get('k') == 'asg' and isinstance(n['a'], dict) and n['a'].get('k') == 'mem':
                        for x in walk(n['b']):
                            if x.get('k') == 'fn':
                                self.slots.setdefault(n['a'].get('fq'), set()).add(x['f'])
                for i in (f.get('inits') or ()) if isinstance(f.get('inits'), list) else ():
                    if isinstance(i, dict):
                        for x in walk(i):
                            if x.get('k') == 'fn':
                                self.slots.setdefault(str(f.get('cls')) + '::' + str(i.get('n') or i.get('f')), set()).add(x['f'])

    def summary(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        if fid in self.busy:
            return frozenset()
        f = self.p.funcs[fid]
        self.busy.add(fid)
        env = {}
        for i, a in enumerate(f.get('params') or ()):
            t = str(a.get('t'))
            env[a['id']] = {('param', i)} if (t.startswith(('r<', 'p<')) or 'shared_ptr' in t or a.get('ref')) else set()
        out = set()
        for part in (f.get('inits'), f.get('body')):
            if part is not None:
                self.effects(part, env, out)
        if f['kind'] in ('ctor', 'dtor'):
            out.discard('this')
        self.busy.discard(fid)
        if not self.busy:
            self.memo[fid] = frozenset(out)
        return frozenset(out)

    def roots(self, n, env):
        """whose storage the expression designates or points into"""
        k = n.get('k')
        if k == 'var':
            if n.get('g'):
                return {'global ' + str(n.get('q') or n['n'])}
            return env.get(n['id'], set())
        if k == 'this':
            return {'this'}
        if k == 'mem':
            fd = self.fields.get(n.get('fq'))
            if fd is not None and fd.get('mut'):
                return {'cache'}
            return self.roots(n['b'], env)
        if k == 'mcall':
            t = str(n.get('t', ''))
            r = self.roots(n['o'], env)
            if std(n):
                return r
            return r if t.startswith(('r<', 'p<')) or n.get('ref') or 'shared_ptr' in t else set()
        if k == 'call':
            out = set()
            for a in n.get('a', ()):
                out |= self.roots(a, env)
            return out
        if k == 'cond':
            return self.roots(n['a'], env) | self.roots(n['b'], env)
        if k in ('cast', 'un', 'inc', 'throw'):
            return self.roots(n['e'], env) if isinstance(n.get('e'), dict) else set()
        if k == 'sub':
            return self.roots(n['a'], env) if isinstance(n.get('a'), dict) else set()
        if k == 'asg':
            return self.roots(n['a'], env)
        if k == 'bin':
            return self.roots(n['a'], env) | self.roots(n['b'], env) if str(n.get('t', '')).startswith('p<') else set()
        if k == 'ctor':
            out = set()
            t = str(n.get('t', ''))
            if n.get('copy') or n.get('move'):
                if 'iterator' in t or 'shared_ptr' in t or t.startswith('p<'):
                    for a in n.get('a', ()):
                        out |= self.roots(a, env)
            return out
        return set()

    def pointing(self, t):
        t = str(t)
        return t.startswith(('p<', 'r<')) or 'iterator' in t or 'shared_ptr' in t or 'unique_ptr' in t or 'reference_wrapper' in t

    def effects(self, n, env, out):
        if isinstance(n, list):
            for x in n:
                self.effects(x, env, out)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'decl':
            for v in n.get('v', ()):
                i = v.get('init')
                if isinstance(i, dict):
                    self.effects(i, env, out)
                if v.get('static'):
                    env[v['id']] = {'global ' + v['n']}
                else:
                    env[v['id']] = self.roots(i, env) if isinstance(i, dict) and (v.get('ref') or self.pointing(v.get('t'))) else set()
            return
        if k == 'rfor':
            self.effects(n['r'], env, out)
            for v in (n['v'] if isinstance(n['v'], list) else [n['v']]):
                if isinstance(v, dict) and 'id' in v:
                    env[v['id']] = self.roots(n['r'], env) if v.get('ref') or self.pointing(v.get('t')) else set()
            self.effects(n['b'], env, out)
            return
        if k == 'lambda':
            for v in n.get('params') or ():
                env.setdefault(v['id'], set())
            self.effects(n.get('body'), env, out)
            return
        if k == 'asg':
            out |= self.roots(n['a'], env)
        elif k == 'inc':
            out |= self.roots(n['e'], env)
        elif k == 'delete':
            out.add('io')
        elif k == 'throw':
            pass
        elif k == 'mcall':
            nm = last(n.get('f') or n.get('q'))
            f = n.get('f')
            if f in self.p.funcs:
                self.apply(self.impls(f), n, env, out)
            elif std(n):
                ot = str(n.get('ot', ''))
                if nm in MUTATORS and not n.get('mc') and nm not in QUIET:
                    out |= self.roots(n['o'], env)
                elif nm == 'operator[]' and 'map' in str(n.get('f', '')).split('::operator')[0].split('<')[0]:
                    if self.roots(n['o'], env):
                        self.lookups.append((n, set(self.roots(n['o'], env))))       # may insert: judged where the assertion is
                        out.add('lookup')
                elif nm == 'operator()' and not n.get('mc'):
                    out |= self.roots(n['o'], env)
                    if any(e in str(n.get('f')) or e in ot for e in ENG):
                        for a in n.get('a', ()):
                            out |= self.roots(a, env)
                elif nm in ('operator<<', 'operator>>') and 'stream' in str(n.get('f')) + ot:
                    out |= self.roots(n['o'], env) or {'io'}
                elif nm == 'now' or 'random_device' in str(n.get('f')):
                    out.add('io') if 'random_device' in str(n.get('f')) else None
        elif k == 'call':
            nm = last(n.get('f') or n.get('q'))
            f = n.get('f')
            if f in self.p.funcs:
                self.apply([f], n, env, out)
            elif nm in ABORTS:
                pass
            elif std(n) or '::' not in str(n.get('q', '')):
                a = n.get('a', ())
                if n.get('op') in ('<<', '>>') and a and 'stream' in str(a[0].get('t', '')) + str(n.get('f')):
                    out |= self.roots(a[0], env) or set()
                elif nm in ALGOS and std(n):
                    if nm in OUT_LAST and len(a) > abs(OUT_LAST[nm]):
                        a = [a[OUT_LAST[nm]]]
                    for x in a:
                        out |= self.roots(x, env)
                elif nm in IO and not std(n) or nm in IO - ALGOS:
                    if nm in ('memcpy', 'memset', 'memmove', 'strcpy', 'strcat') and a:
                        out |= self.roots(a[0], env)
                    elif nm not in IO_FREE:
                        out.add('io')
        elif k == 'icall':
            fe = n.get('fe')
            q = fe.get('fq') if isinstance(fe, dict) else None
            fs = [f for f in sorted(self.slots.get(q, ())) if f in self.p.funcs]
            self.apply(fs, n, env, out)
        elif k == 'ctor':
            f = n.get('f')
            if f in self.p.funcs:
                self.apply([f], n, env, out)
        for key, v in n.items():
            if key not in ('k', 'l', 't') and isinstance(v, (dict, list)):
                self.effects(v, env, out)

    def impls(self, fid):
        """the function and what overrides it"""
        f = self.p.funcs[fid]
        out = [fid]
        if f.get('virt') and f.get('cls'):
            subs = {f['cls']}
            grew = True
            while grew:
                grew = False
                for c in self.p.classes.values():
                    if c['q'] not in subs and any(str(b.get('q') if isinstance(b, dict) else b) in subs for b in c.get('bases', ())):
                        subs.add(c['q'])
                        grew = True
            out += [g['id'] for g in self.p.funcs.values() if g.get('cls') in subs and g['n'] == f['n'] and g['id'] != fid and len(g['params']) == len(f['params'])]
        return out

    def apply(self, fids, n, env, out):
        for fid in fids:
            for e in self.summary(fid):
                if e == 'this':
                    if n.get('o') is not None:
                        out |= self.roots(n['o'], env)
                elif isinstance(e, tuple):
                    a = n.get('a', ())
                    if e[1] < len(a):
                        out |= self.roots(a[e[1]], env)
                else:
                    out.add(e)


# ---- comparing the two programs

DROP = {'l', 'id', 'src', 'unit', 'macro', 'fi'}


def is_assert(n):
    """an expression that only checks: the expansion of assert in either mode, or nothing at all"""
    if n.get('k') in ('cast',) and n.get('ck') == 'ToVoid':
        return is_assert(n['e']) or n['e'].get('k') in ('lit', 'var', 'sizeof', 'str')
    if n.get('k') == 'cond':
        return any(branch_aborts(n[b]) for b in ('a', 'b') if isinstance(n.get(b), dict))
    if n.get('k') in ('lit',):
        return True
    return False


def branch_aborts(n):
    while n.get('k') in ('cast', 'expr') and isinstance(n.get('e'), dict):
        n = n['e']
    return n.get('k') == 'call' and bool(n.get('noreturn')) and last(n.get('f') or n.get('q')) in ABORTS


def checks(n):
    """the conditions of assertions in a tree"""
    for x in walk(n):
        if x.get('k') == 'cond' and is_assert(x):
            yield x


def strip(n):
    """without assertions, positions and numbering"""
    if isinstance(n, list):
        out = []
        for x in n:
            y = strip(x)
            if y is not None:
                out.append(y)
        return out
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'null':
        return None
    if n.get('k') == 'expr' and isinstance(n.get('e'), dict) and is_assert(n['e']):
        return None
    out = {}
    for k, v in n.items():
        if k in DROP:
            continue
        out[k] = strip(v) if isinstance(v, (dict, list)) else plain(v)
    return out


def plain(v):
    return re.sub(r'#\d+$', '', v) if isinstance(v, str) else v


def canon(n):
    return json.dumps(n, sort_keys=True)


def stmts(n):
    if n is None:
        return []
    return n['s'] if isinstance(n, dict) and n.get('k') == 'block' else (n if isinstance(n, list) else [n])


def diff(a, b, out):
    """statements found in one program only: out gets (side, statement); matched statements are collected in out.same"""
    A, B = stmts(a), stmts(b)
    ca, cb = [canon(x) for x in A], [canon(x) for x in B]
    n, m = len(A), len(B)
    tab = [[0] * (m + 1) for _ in range(n + 1)]
    alike = lambda i, j: ca[i] == cb[j] or (A[i].get('k') == B[j].get('k') and A[i].get('k') in ('block', 'for', 'rfor', 'while', 'do', 'if', 'try', 'switch') and heads(A[i]) == heads(B[j]))
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            tab[i][j] = max(tab[i + 1][j], tab[i][j + 1], (tab[i + 1][j + 1] + 1) if alike(i, j) else 0)
    i = j = 0
    while i < n and j < m:
        if alike(i, j) and tab[i][j] == tab[i + 1][j + 1] + 1:
            if ca[i] == cb[j]:
                out.same.append(A[i])
            else:
                out.same.append({'k': 'head', 'h': heads_json(A[i])})
                for key in ('b', 'a', 's', 'h'):
                    x, y = A[i].get(key), B[j].get(key)
                    if key == 's' or (key in BODY.get(A[i]['k'], ())):
                        diff(x if x is not None else [], y if y is not None else [], out)
            i += 1
            j += 1
        elif tab[i + 1][j] >= tab[i][j + 1]:
            out.only.append(('debug', A[i]))
            i += 1
        else:
            out.only.append(('release', B[j]))
            j += 1
    out.only += [('debug', x) for x in A[i:]] + [('release', x) for x in B[j:]]


BODY = {'for': ('b',), 'rfor': ('b',), 'while': ('b',), 'do': ('b',), 'if': ('a', 'b'), 'try': ('b', 'h'), 'switch': ('b',)}


def heads_json(n):
    return {k: v for k, v in n.items() if k not in BODY.get(n['k'], ()) and k != 's'}


def heads(n):
    return canon(heads_json(n))


class Diff:
    def __init__(self):
        self.only, self.same = [], []


def names(n):
    return {x['n'] for x in walk(n) if x.get('k') == 'var' and not x.get('g')}


def declared(n):
    out = set()
    for x in walk(n):
        if x.get('k') == 'decl':
            out |= {v['n'] for v in x['v']}
    return out


LEAVES = ('ret', 'throw', 'break', 'continue')


def harmless(st, E, decls, new):
    """why a statement of one program only matters, or None"""
    env = {}
    names_of = {}
    for x in walk(st):
        if x.get('k') == 'var' and not x.get('g'):
            names_of[x['id']] = x['n']
    outer = set()
    for i, nm in names_of.items():
        env[i] = set() if nm in decls else {'the variable ' + nm}
    out = set()
    E.lookups = []
    E.effects(st, env, out)
    if 'lookup' in out:
        for y, r in E.lookups:
            if any(y is z for z in walk(st)):
                out |= r
    out -= {'lookup', 'cache'}
    if out:
        return 'it changes %s' % ', '.join(sorted('the object' if e == 'this' else str(e) for e in out))
    depth = [x for x in walk(st) if x.get('k') in ('ret', 'throw')]
    if depth and not all(x.get('k') == 'ret' and inside_lambda(st, x) for x in depth):
        return 'it leaves the function'
    if any(x.get('k') in ('break', 'continue') for x in walk(st)) and st.get('k') not in ('for', 'rfor', 'while', 'do', 'switch', 'block'):
        return 'it changes the course of a loop'
    return None


def inside_lambda(st, x):
    return any(l.get('k') == 'lambda' and any(y is x for y in walk(l.get('body'))) for l in walk(st))


def keep_ids(n):
    """strip, but with ids kept (for effect analysis of unmatched statements)"""
    return n


def c25(c):
    c.group('assertions', c25_asserts, c)
    c.group('builds', c25_builds, c)


def show(E, out):
    return ', '.join(sorted('a member of the object' if e == 'this' else ('what argument %d refers to' % e[1] if isinstance(e, tuple) else ('input or output' if e == 'io' else str(e))) for e in out))


def c25_asserts(c):
    E = Effects(c.p)
    n = 0
    for f in sorted(c.p.funcs.values(), key=lambda f: f['id']):
        for part in (f.get('body'), f.get('inits')):
            if part is None:
                continue
            for x in checks(part):
                n += 1
                c.functions.add(f['id'])
                env = locals_env(E, f)
                out = set()
                E.lookups = []
                E.effects(x['c'], env, out)
                sure = out - {'cache', 'lookup'}
                if 'lookup' in out:
                    direct = [(y, r) for y, r in E.lookups if any(y is z for z in walk(x['c']))]
                    loose = [r for y, r in direct if not guarded(y, f)]
                    for r in loose:
                        sure |= r
                if out and not sure:
                    c.open('%s: assertion at line %s' % (f['q'], x['l']), 'fills a mutable member or looks up an entry that may be missing')
                    continue
                out = sure
                c.settled('%s: the assertion at line %s changes nothing' % (f['q'], x['l']), not out, '%s:%s' % (f['file'], x['l']),
                          'the assertion changes %s, which a build without assertions does not' % show(E, out))
    c.notes.append('%d assertions' % n)
    c.settled('assertions searched in %d functions' % len(c.p.funcs), True)


def guarded(look, f):
    """an entry looked up in a map is known to be there: the function asks for it, or has it from the map"""
    o, key = canon(strip(look['o'])), canon(strip(look['a']))
    before, top = True, f['body'].get('s', ())
    for y in walk(f['body']):
        if y is look:
            before = False
        if not before:
            continue
        if y.get('k') == 'mcall' and last(y.get('f') or y.get('q')) in ('count', 'find', 'at', 'insert', 'emplace', 'contains') and canon(strip(y['o'])) == o and (canon(strip(y['a'])) == key or last(y.get('f') or y.get('q')) in ('insert', 'emplace')):
            return True
        if y.get('k') == 'mcall' and y is not look and last(y.get('f') or y.get('q')) == 'operator[]' and canon(strip(y['o'])) == o and canon(strip(y['a'])) == key and not any(y is z for x in checks(f['body']) for z in walk(x['c'])):
            return True
        if y.get('k') == 'rfor' and canon(strip(y['r'])) == o:
            vs = {v['id'] for v in (y['v'] if isinstance(y['v'], list) else [y['v']]) if isinstance(v, dict) and 'id' in v}
            if any(z.get('k') == 'var' and z['id'] in vs for z in walk(look['a'])):
                return True
    for st in top:
        if st.get('k') in ('expr', 'decl', 'ret') and not any(True for _ in checks(st)):
            if any(y.get('k') == 'mcall' and last(y.get('f') or y.get('q')) == 'operator[]' and canon(strip(y['o'])) == o and canon(strip(y['a'])) == key for y in walk(st)):
                return True
    return False


def locals_env(E, f):
    """inside a function every local variable is state that outlives an assertion"""
    env = {}
    for part in (f.get('body'), f.get('inits')):
        if part is None:
            continue
        inner = set()
        for x in checks(part):
            for y in walk(x['c']):
                if y.get('k') == 'decl':
                    inner |= {v['id'] for v in y['v']}
                if y.get('k') == 'lambda':
                    inner |= {v['id'] for v in y.get('params') or ()}
        for x in walk(part):
            if x.get('k') == 'var' and not x.get('g') and x['id'] not in inner:
                env[x['id']] = {'the variable ' + x['n']}
    return env


def c25_builds(c):
    # release: NDEBUG, and what an optimising compiler predefines
    rel = frontend.load(defs=('NDEBUG', '__OPTIMIZE__=1'))
    ED, ER = Effects(c.p), Effects(rel)
    n = 0
    fd = {(q, f['n']) for q, k in c.p.classes.items() for f in k['fields']}
    fr = {(q, f['n']) for q, k in rel.classes.items() for f in k['fields']}
    newf = fd ^ fr
    for q, f in sorted(newf):
        c.open('%s::%s' % (q, f), 'member of one build only')
    for q in sorted(set(c.p.classes) & set(rel.classes)):
        a, b = c.p.classes[q], rel.classes[q]
        fa, fb = {f['n']: f for f in a['fields']}, {f['n']: f for f in b['fields']}
        bad = [x for x in fa if x in fb and canon(strip(fa[x])) != canon(strip(fb[x]))]
        c.settled('%s has the same members in both builds' % q, not bad, '%s:%s' % (a['file'], a['l']), 'the member %s is declared differently in a release build' % (bad or [''])[0])
        n += 1
    for q in sorted(set(c.p.globals) & set(rel.globals)):
        a, b = c.p.globals[q], rel.globals[q]
        if not a.get('inroot'):
            continue
        ok = canon(strip(a.get('init'))) == canon(strip(b.get('init'))) and a['t'] == b['t']
        c.settled('%s is the same in both builds' % q, ok, '%s:%s' % (a['file'], a['l']), 'the constant differs between a debug and a release build')
    one = set(c.p.funcs) ^ set(rel.funcs)
    for fid in sorted(one):
        c.notes.append('only in one build: ' + fid)
    for fid in sorted(set(c.p.funcs) & set(rel.funcs)):
        a, b = c.p.funcs[fid], rel.funcs[fid]
        c.functions.add(fid)
        if all(canon(strip(a.get(x))) == canon(strip(b.get(x))) for x in ('body', 'inits')):
            c.settled('%s is the same in both builds' % a['q'], True)
            continue
        bad = None
        if canon(strip(a.get('inits'))) != canon(strip(b.get('inits'))):
            bad = (a['l'], 'its initialisers differ')
        else:
            D = Diff()
            diff(strip_ids(a.get('body')), strip_ids(b.get('body')), D)
            used = set()
            for x in D.same:
                used |= names(x)
            decls = set()
            for side, x in D.only:
                decls |= declared(x)
            for side, x in D.only:
                if not isinstance(x, dict) or 'k' not in x:
                    bad = bad or (a['l'], 'handlers differ')
                    continue
                d = declared(x) & used if x.get('k') == 'decl' else set()
                E = ED if side == 'debug' else ER
                why = harmless(unwrap(x), E, decls - used, newf)
                if d:
                    why = 'it declares %s, which is used later' % sorted(d)[0]
                if why:
                    bad = (unwrap(x).get('l', a['l']), 'a statement of the %s build only: %s' % (side, why))
                    break
        c.settled('%s is the same in both builds' % a['q'], bad is None, '%s:%s' % (a['file'], (bad or (a['l'],))[0]), bad[1] if bad else '')


def strip_ids(n):
    """strip for comparison, each stripped statement remembering its original"""
    if n is None:
        return []
    return mark(n)


ORIG = {}


def mark(n):
    if isinstance(n, list):
        return [y for y in (mark(x) for x in n) if y is not None]
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'null' or (n.get('k') == 'expr' and isinstance(n.get('e'), dict) and is_assert(n['e'])):
        return None
    out = {}
    for k, v in n.items():
        if k in DROP:
            continue
        out[k] = mark(v) if isinstance(v, (dict, list)) else plain(v)
    ORIG[id(out)] = (out, n)
    return out


def unwrap(x):
    o = ORIG.get(id(x))
    return o[1] if o else x
