"""One check without its specification side (generated scenarios are cached): development tool for mutate.py."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import registry  # noqa: E402
import vlib  # noqa: E402


class Fast(vlib.Check):
    def model_check(self, i, mc):
        return mc['module'], 0, 0, 0.0

    def generate(self, i, g):
        path = os.path.join(sys.argv[2], '%s-%d.json' % (self.pid, i))
        if os.path.exists(path):
            return g['name'], path, 0, 0
        name, out, a, b = vlib.Check.generate(self, i, g)
        shutil.copy(out, path + '.tmp')
        os.rename(path + '.tmp', path)
        return name, path, a, b

    def write_replay(self, *a):
        return '-'

    def evidence(self, *a):
        pass


try:
    sys.exit(Fast(sys.argv[1], registry.CHECKS[sys.argv[1]], 'quick', 1, None).run())
except vlib.MachineryError as e:
    print('MACHINERY', e)
    sys.exit(2)
