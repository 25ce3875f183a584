"""A stand-in `tensorflow` module: importing it lets the modules that mention TensorFlow 1 names load.

No network is built with it; the checks that use it drive code around the network only.
"""
import sys
import types


def install():
    if 'tensorflow' in sys.modules:
        return sys.modules['tensorflow']

    class _Any(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            if name[:1].isupper():
                c = type(name, (object,), {})
                setattr(self, name, c)
                return c
            m = _Any(self.__name__ + '.' + name)
            sys.modules[m.__name__] = m
            setattr(self, name, m)
            return m

        def __call__(self, *a, **k):
            raise RuntimeError('network code is not available: ' + self.__name__)
    tf = _Any('tensorflow')
    tf.__path__ = []
    sys.modules['tensorflow'] = tf
    for sub in ('contrib', 'contrib.rnn', 'train', 'nn', 'layers', 'python'):
        m = _Any('tensorflow.' + sub)
        m.__path__ = []
        sys.modules[m.__name__] = m
    tf.contrib, tf.train, tf.nn, tf.layers = (sys.modules['tensorflow.' + x] for x in ('contrib', 'train', 'nn', 'layers'))
    tf.contrib.rnn = sys.modules['tensorflow.contrib.rnn']
    return tf
