"""The TensorFlow 1 interface the code was written for, on the installed TensorFlow: compat.v1 plus the genuine
legacy layers and cells that it no longer exposes."""
import os
import sys
import types

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
SESSIONS = []


class Delegate(types.ModuleType):
    def __init__(self, name, base, **extra):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(extra)
        self.__dict__['_base'] = base

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._base, name)


def open_sessions():
    return sum(not s._closed for s in SESSIONS)


def install():
    import tensorflow as real
    import tensorflow.compat.v1 as v1
    from tensorflow.python.keras.layers.legacy_rnn import rnn_cell_impl
    from tensorflow.python.keras.legacy_tf_layers import core
    v1.disable_eager_execution()
    v1.disable_resource_variables()
    v1.logging.set_verbosity(v1.logging.ERROR)
    import warnings
    warnings.filterwarnings('ignore')

    class Session(v1.Session):
        def __init__(self, target='', graph=None, config=None):
            v1.Session.__init__(self, target, graph=graph, config=config or v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1))
            SESSIONS.append(self)

    def conv2d(input, filter=None, strides=None, padding=None, *args, **kw):
        """The processor implementation has no gradient for dilated convolutions: the same, with a spread kernel."""
        d = list(kw.get('dilations') or [1, 1, 1, 1])
        f = kw.get('filters', filter)
        if args or d[0] != 1 or d[3] != 1 or d[1:3] == [1, 1] or list(strides) != [1, 1, 1, 1] or padding != 'SAME':
            return v1.nn.conv2d(input, filter, strides, padding, *args, **kw)
        # taps spread out with zeros between them
        for axis in (0, 1):
            size = f.shape[axis].value if hasattr(f.shape[axis], 'value') else int(f.shape[axis])
            taps = v1.split(f, size, axis=axis)
            gap = [v1.zeros_like(taps[0])] * (d[1 + axis] - 1)
            f = v1.concat([x for i, t in enumerate(taps) for x in ([t] if i == 0 else gap + [t])], axis=axis)
        return v1.nn.conv2d(input, f, [1, 1, 1, 1], 'SAME')
    layers = Delegate('tensorflow.layers', core)
    nn = Delegate('tensorflow.nn', v1.nn, rnn_cell=Delegate('tensorflow.nn.rnn_cell', rnn_cell_impl), conv2d=conv2d)
    tf = Delegate('tensorflow', v1, layers=layers, nn=nn, Session=Session)
    tf.__path__ = real.__path__
    tf.__dict__['__version__'] = real.__version__
    sys.modules['tensorflow'] = tf
    return v1
