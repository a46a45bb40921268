"""Flow-insensitive, field-insensitive points-to and effect summaries of every function (IR level).

Abstract objects of a function: ('arg', i) memory the i-th parameter points to, ('argd', i) memory reachable from it through
stored pointers, ('local', name) a stack object, ('heap', name), ('glb', name), ('any',) unknown.
Summary of a function: which objects it (and everything it calls) may store to, with the place of the store."""

PURE = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'floor', 'ceil', 'log2', 'log', 'log10', 'exp', 'pow', 'fabs', 'fmin', 'fmax', 'hypot',
        'round', 'lround', 'trunc', 'rint', 'fmod', 'cbrt', 'abs', 'labs', 'strlen', 'strcmp', 'memcmp', 'fma', 'isnan', 'isinf', 'copysign', 'llround', 'nearbyint'}
WRITES = {'memcpy': 0, 'memset': 0, 'memmove': 0, 'qsort': 0, 'frexp': 1, 'modf': 1, 'strcpy': 0, 'strcat': 0, 'sprintf': 0, 'snprintf': 0}
ALLOC = {'malloc', 'calloc', 'aligned_alloc', 'realloc', 'strdup'}
PRINT = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'fwrite', 'fflush', 'vprintf', 'vfprintf', 'perror', 'putc', '__printf_chk', '__fprintf_chk'}
ABORT = {'__assert_fail', 'abort', '__assert'}
FREE = {'free'}
STATE = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'rand_r', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'setenv', 'putenv', 'strtok',
         'setlocale', 'fesetround', 'feenableexcept', 'fesetenv', 'feclearexcept', 'signal', 'sigaction', 'exit', '_exit', 'atexit', 'longjmp', 'setjmp', '_setjmp', 'fopen', 'open',
         'fclose', 'fread', 'read', 'write', 'remove', 'unlink', 'rename', 'system', 'popen', 'scanf', 'fscanf', 'gets', 'fgets', 'getchar', 'raise', 'kill', 'fork',
         'pthread_create', 'localtime', 'gmtime', 'ctime', 'asctime', 'strerror', 'lgamma', 'signgam', 'sbrk', 'mmap', 'getpid', 'arc4random', 'getrandom', 'usleep', 'sleep'}


def callee(x):
    c = x.ops[0]
    return c[1].strip('"') if c[0] == 'glb' else None


def intr(nm):
    """library name behind an llvm intrinsic, None when it has no effect"""
    if nm.startswith('llvm.'):
        b = nm.split('.')[1]
        if b in ('memcpy', 'memset', 'memmove'): return b
        return None
    return nm


class Pts:
    def __init__(self, mods):
        self.mods = mods
        self.funcs = {}
        for m in mods.values():
            for n, f in m.funcs.items():
                if f.blocks: self.funcs[n] = f
        self.sum = {n: {} for n in self.funcs}      # name -> {obj: [(fn, line, what)]}
        self.ret = {n: set() for n in self.funcs}
        self.ptr = {n: set() for n in self.funcs}   # (obj, obj): pointers stored
        self.calls = {n: [] for n in self.funcs}    # (callee, line)
        ch = True
        while ch:
            ch = False
            for n in self.funcs:
                if self.one(n): ch = True

    def one(self, n):
        f = self.funcs[n]
        idx = {nm: i for i, (ty, nm, at) in enumerate(f.params)}
        env = {}
        for nm, i in idx.items(): env[nm] = {('arg', i)} if f.params[i][0].k == 'p' else set()
        cont = {}

        def content(o):
            s = set(cont.get(o, ()))
            if o[0] == 'arg': s.add(('argd', o[1]))
            elif o[0] == 'argd': s.add(o)
            elif o[0] == 'any': s.add(o)
            elif o[0] == 'glb' and not s: s.add(('any',))
            return s

        def val(v):
            if v[0] == 'loc': return env.get(v[1], set())
            if v[0] == 'glb': return {('glb', v[1].strip('"'))}
            if v[0] == 'cgep': return val(v[2][0][1])
            if v[0] == 'cexpr': return {('any',)}
            return set()
        mod = {}
        calls = []
        ret = set()

        def store(objs, line, what, src=()):
            if len(objs) > 1: what += '?'
            for o in objs:
                mod.setdefault(o, {}).setdefault((n, line, what), 0)
                if src: cont.setdefault(o, set()).update(src)
        size = -1
        while size != sum(map(len, env.values())) + sum(map(len, cont.values())) + len(ret):
            size = sum(map(len, env.values())) + sum(map(len, cont.values())) + len(ret)
            calls = []
            for b in f.order:
                for x in f.blocks[b]:
                    op = x.op
                    if op == 'alloca': env[x.res] = {('local', x.res)}
                    elif op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze'): env[x.res] = set(val(x.ops[0]))
                    elif op == 'inttoptr': env[x.res] = {('any',)}
                    elif op == 'load':
                        s = env.setdefault(x.res, set())
                        if x.ty.k == 'p':
                            for o in val(x.ops[0]): s |= content(o)
                    elif op == 'store': store(val(x.ops[1]), x.line, 'store', val(x.ops[0]) if x.ty.k == 'p' else ())
                    elif op == 'phi':
                        s = env.setdefault(x.res, set())
                        for v in x.ops: s |= val(v)
                    elif op == 'select': env[x.res] = val(x.ops[1]) | val(x.ops[2])
                    elif op in ('extractvalue', 'insertvalue'): env[x.res] = set().union(*[val(v) for v in x.ops])
                    elif op == 'ret' and x.ops: ret |= val(x.ops[0])
                    elif op in ('cmpxchg', 'atomicrmw') or op.startswith('unknown'): store({('any',)}, x.line, op)
                    elif op == 'call':
                        nm = callee(x)
                        args = [val(v) for t, v, a in x.x] if isinstance(x.x, list) else []
                        if nm is None:
                            calls.append((None, x.line))
                            for a in args: store(a, x.line, 'indirect call')
                            continue
                        i = intr(nm)
                        if i is None: continue
                        calls.append((i, x.line))
                        if i in self.funcs:
                            for o, why in self.sum[i].items():
                                tgt = None
                                if o[0] == 'arg': tgt = args[o[1]] if o[1] < len(args) else ()
                                elif o[0] == 'argd':
                                    tgt = set()
                                    for q in args[o[1]] if o[1] < len(args) else (): tgt |= content(q)
                                elif o[0] in ('glb', 'any'): tgt = {o}
                                if tgt:
                                    for w in why:
                                        if len(tgt) > 1 and not w[2].endswith('?'): w = (w[0], w[1], w[2] + '?')
                                        for q in tgt: mod.setdefault(q, {}).setdefault(w, 0)
                            for (o, p) in self.ptr[i]:
                                def tr(o):
                                    if o[0] == 'arg': return set(args[o[1]]) if o[1] < len(args) else set()
                                    if o[0] == 'argd':
                                        r = set()
                                        for q in args[o[1]] if o[1] < len(args) else (): r |= content(q)
                                        return r
                                    return {o}
                                for q in tr(o): cont.setdefault(q, set()).update(tr(p))
                            r = set()
                            for o in self.ret[i]:
                                if o[0] == 'arg': r |= args[o[1]] if o[1] < len(args) else set()
                                elif o[0] == 'argd':
                                    for q in args[o[1]]: r |= content(q)
                                else: r.add(o)
                            if x.res: env[x.res] = r
                        elif i in ALLOC:
                            if x.res: env[x.res] = {('heap', n + '/' + x.res)}
                        elif i in WRITES:
                            k = WRITES[i]
                            src = set()
                            if i in ('memcpy', 'memmove') and len(args) > 1:
                                for o in args[1]: src |= {c for c in cont.get(o, ())}
                            store(args[k], x.line, i, src)
                        elif i in PURE or i in PRINT or i in ABORT or i in FREE or i in STATE: pass
                        else:
                            for a in args: store(a, x.line, 'call of ' + i)
        out = {o: set(w) for o, w in mod.items() if o[0] != 'local'}
        ptr = {(o, p) for o, s in cont.items() for p in s if o[0] != 'local' and p[0] != 'local'}
        self.calls[n] = calls
        if out != self.sum[n] or ret != self.ret[n] or ptr != self.ptr[n]:
            self.sum[n], self.ret[n], self.ptr[n] = out, ret, ptr
            return True
        return False

    def reach(self, n):
        seen, todo = set(), [n]
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.add(f)
            if f in self.calls: todo += [c for c, l in self.calls[f] if c]
        return seen
