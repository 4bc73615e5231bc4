import os

from ocgis.prog import GridChunker


def good(weight):
    if os.path.exists(weight):
        raise IOError(weight)
    GridChunker().create_merged_weight_file(weight)


def bad(weight, other):
    if os.path.exists(other):
        raise IOError(weight)
    GridChunker().create_merged_weight_file(weight)  # BAD
