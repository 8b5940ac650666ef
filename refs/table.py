"""Model of a table with columns of equal length, interpreted by the analyser (never executed)."""
import numpy as np


class Dtype:
    def __init__(self, names):
        self.names = names


class Table:
    def __init__(self, cols=None, names=None):
        self.cols = {}
        if names is not None:
            for k, v in zip(names, cols):
                self.cols[k] = np.array(v)
        elif cols is not None:
            for k in cols.keys():
                self.cols[k] = np.array(cols[k])
        self.meta = {}

    @property
    def dtype(self):
        return Dtype(list(self.cols.keys()))

    @property
    def colnames(self):
        return list(self.cols.keys())

    @property
    def columns(self):
        return self.cols

    def keys(self):
        return list(self.cols.keys())

    def __len__(self):
        for k in self.cols.keys():
            return len(self.cols[k])
        return 0

    def __contains__(self, k):
        return k in self.cols

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        r = Table()
        for n in self.cols.keys():
            r.cols[n] = np.array(self.cols[n][k])
        return r

    def __setitem__(self, k, v):
        if len(self.cols) == 0:
            self.cols[k] = np.array(v)
        else:
            c = np.zeros(len(self))
            c[:] = v
            self.cols[k] = c

    def add_column(self, col, name=None):
        self[name] = col

    def rename_column(self, old, new):
        self.cols[new] = self.cols[old]
        del self.cols[old]

    def remove_column(self, k):
        del self.cols[k]

    def remove_rows(self, rows):
        keep = np.ones(len(self)).astype(bool)
        keep[rows] = False
        for n in self.cols.keys():
            self.cols[n] = self.cols[n][keep]

    def copy(self):
        return Table(self.cols)

    def sort(self, keys):
        if isinstance(keys, str):
            keys = (keys,)
        order = np.lexsort([self.cols[k] for k in list(keys)[::-1]])
        for n in self.cols.keys():
            self.cols[n] = self.cols[n][order]

    def write(self, name, format=None, overwrite=False):
        pass


def column(n):
    return np.zeros(n)
