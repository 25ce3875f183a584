"""A symbolic stand-in for `tensorflow`: every operation yields a named symbol, nothing is computed.

The real network builders build a symbolic graph on it, the real Model runs its feeds and fetches against a
session whose answers come from HOOK.  Only the outer interface is interpreted: placeholders and their names,
feeds, fetches, saving and restoring.
"""
import contextlib
import os
import pickle
import sys
import types

HOOK = None            # HOOK(session, kind, fetches, feeds by placeholder name) -> values
EVENTS = None          # EVENTS(kind, session, detail)
_current = []


class Shape(object):
    def __getitem__(self, i):
        return 7

    def as_list(self):
        return [7, 7, 7]

    def __iter__(self):
        return iter([7, 7, 7])

    def __eq__(self, other):
        return isinstance(other, Shape)

    def __int__(self):
        return 7

    def __len__(self):
        return 3


class Sym(object):
    """a tensor, an operation, a variable or a type: anything"""
    def __init__(self, base, kind='op', shape=None):
        g = _current[-1] if _current else None
        self.kind, self._shape, self.graph = kind, shape, g
        self.op_name = g.register(base, self) if g else base
        self.name = self.op_name + (':0' if kind not in ('run', 'train') else '')

    shape = property(lambda self: Shape())
    dtype = property(lambda self: 'dtype')
    op = property(lambda self: self)

    def get_shape(self):
        return Shape()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: Sym(name)

    def __getitem__(self, i):
        return Sym('item')

    def __iter__(self):
        raise TypeError('a symbolic tensor cannot be iterated')

    def __call__(self, *a, **k):
        return Sym('call')

    def __reduce__(self):
        raise TypeError('tensors cannot be pickled')

    def _bin(self, *_):
        return Sym('arith')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __rpow__ = __gt__ = __lt__ = __ge__ = __le__ = _bin


class Graph(object):
    def __init__(self):
        self.names, self.seed = {}, None

    def register(self, base, s):
        name, i = base, 0
        while name in self.names:
            i += 1
            name = '%s_%d' % (base, i)
        self.names[name] = s
        return name

    @contextlib.contextmanager
    def as_default(self):
        _current.append(self)
        try:
            yield self
        finally:
            _current.pop()

    def _by(self, name):
        if name not in self.names:
            raise KeyError('not in the graph: ' + name)
        return self.names[name]

    def get_tensor_by_name(self, name):
        if not name.endswith(':0'):
            raise ValueError('not a tensor name: ' + name)
        return self._by(name[:-2])

    def get_operation_by_name(self, name):
        if ':' in name:
            raise ValueError('not an operation name: ' + name)
        return self._by(name)

    def __reduce__(self):
        raise TypeError('graphs cannot be pickled')


_default = Graph()


class Session(object):
    count = 0

    def __init__(self, target='', graph=None, config=None):
        Session.count += 1
        self.id = Session.count
        self.graph = graph if graph is not None else (_current[-1] if _current else _default)
        self.weights, self.closed = None, False
        if EVENTS:
            EVENTS('open', self, None)

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        if self.closed:
            raise RuntimeError('Attempted to use a closed Session.')
        feeds = {}
        for t, v in (feed_dict or {}).items():
            if not isinstance(t, Sym) or t.graph is not self.graph:
                raise ValueError('fed tensor is not an element of this graph')
            feeds[t.op_name] = v
        flat = list(fetches.values()) if isinstance(fetches, dict) else list(fetches) if isinstance(fetches, (list, tuple)) else [fetches]
        for t in flat:
            if not isinstance(t, Sym) or t.graph is not self.graph:
                raise ValueError('fetched tensor is not an element of this graph')
        kind = 'train' if any(t.kind == 'train' for t in flat) else 'predict' if isinstance(fetches, dict) else 'init' if any(t.kind == 'run' for t in flat) else 'set'
        got = HOOK(self, kind, fetches, feeds)
        if kind == 'train':
            loss = lambda t: None if t.kind == 'train' else got
            return {k: loss(t) for k, t in fetches.items()} if isinstance(fetches, dict) else [loss(t) for t in fetches] if isinstance(fetches, (list, tuple)) else None
        return got

    def close(self):
        if not self.closed and EVENTS:
            EVENTS('close', self, None)
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def as_default(self):
        return contextlib.nullcontext(self)

    def __reduce__(self):
        raise TypeError('sessions cannot be pickled')


class Saver(object):
    def __init__(self, *a, **k):
        if not (_current and _current[-1].names):
            raise ValueError('No variables to save')

    def save(self, sess, path, *a, **k):
        if not os.path.isdir(os.path.dirname(path)):
            raise ValueError("Parent directory of {} doesn't exist, can't save.".format(path))
        with open(path + '.meta', 'wb') as f:
            pickle.dump({n: (s.kind, s._shape) for n, s in sess.graph.names.items()}, f)
        with open(path + '.data', 'wb') as f:
            pickle.dump(sess.weights, f)
        if EVENTS:
            EVENTS('save', sess, path)

    def restore(self, sess, path):
        if EVENTS:
            EVENTS('load', sess, path)
        with open(path + '.data', 'rb') as f:
            sess.weights = pickle.load(f)


def import_meta_graph(path, *a, **k):
    with open(path, 'rb') as f:
        names = pickle.load(f)
    for n, (kind, shape) in names.items():
        s = Sym(n, kind, shape)
        assert s.op_name == n
    return Saver()


class Optimizer(object):
    def __init__(self, *a, **k):
        pass

    def compute_gradients(self, loss, *a, **k):
        return [(Sym('grad'), Sym('var')), (Sym('grad'), Sym('var'))]

    def apply_gradients(self, gv, global_step=None, name=None):
        list(gv)
        return Sym(name or 'apply', 'train')

    def minimize(self, loss, *a, name=None, **k):
        return Sym(name or 'minimize', 'train')


def install():
    class Any_(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            if name[:1].isupper():
                c = type(name, (object,), {'__init__': lambda self, *a, **k: None})
                setattr(self, name, c)
                return c
            if name in ('nn', 'train', 'layers', 'math', 'random', 'ragged', 'rnn_cell', 'contrib', 'rnn', 'python', 'summary', 'compat', 'v1', 'initializers', 'app', 'logging'):
                m = Any_(self.__name__ + '.' + name)
                m.__path__ = []
                sys.modules[m.__name__] = m
                setattr(self, name, m)
                return m

            class Fn(Sym):
                def __init__(self):
                    self.kind, self._shape, self.graph, self.op_name, self.name = 'fn', None, None, name, name

                def __call__(self, *a, name=None, **k):
                    return Sym(name or self.op_name)
            f = Fn()
            setattr(self, name, f)
            return f
    tf = Any_('tensorflow')
    tf.__path__ = []
    sys.modules['tensorflow'] = tf
    tf.Graph, tf.Session = Graph, Session
    tf.Tensor = tf.Operation = tf.Variable = Sym
    tf.placeholder = lambda dtype=None, shape=None, name=None: Sym(name or 'Placeholder', 'in', None if shape is None else len(list(shape)))
    tf.placeholder_with_default = lambda default, shape=None, name=None: Sym(name or 'PlaceholderWithDefault', 'in', None if shape is None else len(list(shape)))
    tf.train.Saver, tf.train.import_meta_graph = Saver, import_meta_graph
    for o in ('GradientDescentOptimizer', 'AdamOptimizer', 'RMSPropOptimizer'):
        setattr(tf.train, o, type(o, (Optimizer,), {}))
    tf.clip_by_global_norm = lambda ts, clip_norm=None, **k: (list(ts), Sym('norm'))
    tf.nn.bidirectional_dynamic_rnn = lambda *a, **k: ((Sym('fw'), Sym('bw')), Sym('state'))
    tf.global_variables_initializer = lambda *a, **k: Sym('init', 'run')
    tf.variables_initializer = lambda *a, **k: Sym('init', 'run')

    def seed(x):
        _current[-1].seed = x
        if EVENTS:
            EVENTS('seed', None, x)
    tf.set_random_seed = tf.random.set_random_seed = seed
    tf.get_default_graph = lambda: _current[-1] if _current else _default

    @contextlib.contextmanager
    def scope(*a, **k):
        yield
    tf.variable_scope = tf.name_scope = scope
    return tf
