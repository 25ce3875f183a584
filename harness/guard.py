"""Containment: nothing outside the scratch directory may be created, changed or removed by the code under test."""
import os
import sys


def install():
    root = os.path.realpath(os.environ['VERIF_SCRATCH'])
    write = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

    def inside(p):
        if isinstance(p, int):
            return True
        p = os.path.realpath(os.fsdecode(p))
        return p == root or p.startswith(root + os.sep) or p.startswith('/dev/')

    def below(p):
        p = os.path.realpath(os.fsdecode(p))
        return p.startswith(root + os.sep)

    def hook(event, args):
        if event == 'open':
            path, mode, flags = args
            if path is not None and isinstance(flags, int) and flags & write and not inside(path):
                raise PermissionError('write outside the scratch directory: %r' % (path,))
        elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate'):
            fd = args[-1] if event in ('os.remove', 'os.rmdir') else -1
            if (fd is None or fd == -1) and not inside(args[0]):
                raise PermissionError('%s outside the scratch directory: %r' % (event, args[0]))
        elif event in ('os.rename', 'os.link', 'os.symlink'):
            if not inside(args[0]) or not inside(args[1]):
                raise PermissionError('%s outside the scratch directory: %r' % (event, args[:2]))
        elif event == 'shutil.rmtree':
            if not below(args[0]):
                raise PermissionError('rmtree outside the scratch directory: %r' % (args[0],))
        elif event in ('os.chmod', 'os.chown', 'shutil.chown', 'os.utime'):
            if args and not inside(args[0]):
                raise PermissionError(event)
    sys.addaudithook(hook)
