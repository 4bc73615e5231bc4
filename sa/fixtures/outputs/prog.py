import os
import shutil
import tempfile

import env


class AbstractFileConverter(object):
    _ext = None

    def __init__(self, prefix=None, outdir=None, overwrite=False):
        self.outdir = outdir
        self.overwrite = overwrite
        self.prefix = prefix
        self.add_auxiliary_files = True
        if self._ext is None:
            self.path = outdir
        else:
            self.path = os.path.join(outdir, prefix + '.' + self._ext)
            self._check_(self.path)

    def _check_(self, path):
        if os.path.exists(path) and not self.overwrite:
            raise IOError(path)

    def write(self):
        self._write_({'path': self.path})


class GoodConverter(AbstractFileConverter):
    _ext = 'good'

    def _write_(self, f):
        with open(f['path'], 'w') as sink:
            sink.write('x')


class SideConverter(AbstractFileConverter):
    _ext = 'side'

    def _write_(self, f):
        with open(f['path'], 'w') as sink:
            sink.write('x')
        with open(os.path.join(self.outdir, 'side.txt'), 'w') as sink:
            sink.write('x')
        self.add_auxiliary_files = False
        with open(os.path.join(self.outdir, 'side2.txt'), 'w') as sink:  # BAD
            sink.write('x')


class Interpreter(object):
    def execute(self):
        made = False
        outdir = os.path.join(self.ops.dir_output, 'x')
        if os.path.exists(outdir):
            if env.OVERWRITE:
                shutil.rmtree(outdir)
            else:
                raise IOError(outdir)
        os.mkdir(outdir)
        made = True
        try:
            return self.convert(outdir)
        except:
            if made:
                shutil.rmtree(outdir)
            raise

    def convert(self, outdir):
        return outdir


class Loose(object):
    def execute(self):
        outdir = os.path.join(self.ops.dir_output, 'x')
        if not os.path.exists(outdir):
            os.mkdir(outdir)
        try:
            return self.convert(outdir)  # BAD
        except:
            shutil.rmtree(outdir)  # BAD
            raise

    def convert(self, outdir):
        return outdir


def scratch():
    path = tempfile.mkdtemp()
    try:
        return len(path)
    finally:
        shutil.rmtree(path)


def tidy(path, overwrite=True):  # BAD
    if overwrite:
        os.remove(path)


def tolerant(path):
    os.makedirs(path, exist_ok=True)
    shutil.rmtree(path)  # BAD


class GridChunker(object):
    def create_merged_weight_file(self, weight_path):
        return weight_path


def cli(weight):
    if weight is not None and os.path.exists(weight):
        raise IOError(weight)
    GridChunker().create_merged_weight_file(weight)
