"""Resolved call graph over the workspace's MIR."""


def operands(x):
    """All operand dicts below a statement, rvalue or terminator."""
    if isinstance(x, dict):
        if 'k' in x and x['k'] in ('copy', 'move', 'const', 'fn'):
            yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from operands(v)


def closures_made(x):
    if isinstance(x, dict):
        if x.get('r') == 'agg' and x.get('kind') in ('closure', 'Closure'):
            yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from closures_made(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from closures_made(v)


class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        # trait method (trait path, name) -> implementations in the workspace
        self.impls = {}
        for fn in prog.fns.values():
            if fn.trait:
                self.impls.setdefault((fn.trait, fn.name), []).append(fn.key)
            t = fn.d.get('intrait')
            if t:
                self.impls.setdefault((t, fn.name), []).append(fn.key)
        self.local = {}     # key -> set of local keys
        self.ext = {}       # key -> list of (path, self type, at)
        self.statics = {}   # key -> list of (static, at)
        for fn in prog.fns.values():
            self._scan(fn)

    def _bodies(self, fn):
        if fn.body:
            yield fn.body
        for p in fn.d.get('promoted') or []:
            yield p

    def _scan(self, fn):
        loc, ext, sts = set(), [], []
        for b in self._bodies(fn):
            for bb in b['blocks']:
                if bb.get('cleanup'):
                    continue
                for node in bb['st'] + [bb['term']]:
                    at = node.get('at', '')
                    for op in operands(node):
                        if op['k'] == 'fn':
                            self._target(op, at, loc, ext)
                        elif op.get('static'):
                            sts.append((op['static'], at))
                    rv = node.get('rv') or {}
                    if rv.get('r') == 'tls':
                        sts.append(('thread-local', at))
        for c in self.prog.closures_of.get(fn.key, []):
            loc.add(c.key)
        self.local[fn.key], self.ext[fn.key], self.statics[fn.key] = loc, ext, sts

    def _target(self, op, at, loc, ext):
        k = op.get('rkey') or op.get('key')
        if k in self.prog.fns:
            loc.add(k)
            f = self.prog.fns[k]
            if f.d.get('intrait') and not op.get('rkey'):
                for i in self.impls.get((f.d['intrait'], f.name), []):
                    loc.add(i)
            return
        if op.get('trait') and not op.get('rkey'):
            for i in self.impls.get((op['trait'], op['name']), []):
                loc.add(i)
        ext.append((op.get('rpath') or op['path'], op, at))

    def reachable(self, roots):
        seen, parent, work = set(roots), {}, list(roots)
        while work:
            k = work.pop()
            for c in self.local.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    parent[c] = k
                    work.append(c)
        return seen, parent
