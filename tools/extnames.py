"""Write sa/external_names.txt: attribute names that objects and modules of other libraries have (run once, by hand).

Only library objects are listed; ocgis itself is not imported."""
import importlib, sys, inspect, pkgutil
MODS = '''numpy numpy.ma numpy.ma.core numpy.random numpy.linalg numpy.lib shapely.geometry shapely.geometry.base shapely.geometry.polygon
shapely.geometry.point shapely.ops shapely.prepared shapely.wkt shapely.wkb shapely.affinity shapely.validation shapely netCDF4
osgeo.ogr osgeo.osr osgeo.gdal fiona fiona.collection fiona.crs fiona.drvsupport fiona.model mpi4py.MPI mpi4py rtree rtree.index cftime pyproj pyproj.crs
cf_units six six.moves os os.path sys re json csv datetime logging logging.handlers collections collections.abc itertools functools operator tempfile shutil
zipfile inspect time types io pickle argparse contextlib copy abc string math decimal fractions random warnings traceback
subprocess threading queue multiprocessing struct hashlib urllib urllib.request urllib.parse textwrap pprint pathlib unittest weakref
enum dataclasses typing platform getpass socket glob fnmatch heapq bisect statistics ast click click.core click.types builtins locale calendar
configparser gc signal importlib importlib.machinery uuid numbers array'''.split()
out = set()
def add(o, depth):
    for n in dir(o):
        out.add(n)
        if depth:
            try:
                x = getattr(o, n)
            except Exception:
                continue
            if inspect.isclass(x) or (depth > 1 and inspect.ismodule(x)):
                try: add(x, depth - 1)
                except Exception: pass
for m in MODS:
    try:
        x = importlib.import_module(m)
    except Exception as e:
        print('skip', m, e, file=sys.stderr)
        continue
    add(x, 1)
print('\n'.join(sorted(n for n in out if not (n.startswith('__') and n.endswith('__')) and n.isidentifier())))
