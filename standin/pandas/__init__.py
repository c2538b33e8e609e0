"""A very small part of pandas: what improver's table lookup and dz-rescaling
plugins use (a labelled 2-d table built from a dict of dicts; Timedelta)."""
import datetime

import numpy as np


class Index(list):
    def astype(self, kind):
        return Index(kind(x) for x in self)

    def __array__(self, dtype=None):
        return np.array(list(self), dtype=dtype)


def Timedelta(*args, **kwargs):
    return datetime.timedelta(*args, **{k: float(v) for k, v in kwargs.items()})


class Timestamp(datetime.datetime):
    def __new__(cls, value, *args, **kwargs):
        if args or kwargs:
            return super().__new__(cls, value, *args, **kwargs)
        if isinstance(value, datetime.datetime):
            v = value
        else:
            v = None
            for fmt in ("%Y%m%dT%H%MZ", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d"):
                try:
                    v = datetime.datetime.strptime(str(value), fmt)
                    break
                except ValueError:
                    pass
        return super().__new__(cls, v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)


class DataFrame:
    def __init__(self, values, index, columns):
        self._values = np.asarray(values)
        self._index, self._columns = Index(index), Index(columns)

    @classmethod
    def from_dict(cls, table):
        columns = list(table)
        index = []
        for col in table.values():
            for label in col:
                if label not in index:
                    index.append(label)
        values = np.array([[table[c].get(r, np.nan) for c in columns] for r in index])
        return cls(values, index, columns)

    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, labels):
        self._columns = Index(labels)

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, labels):
        self._index = Index(labels)

    def reindex(self, labels, axis):
        old = self._columns if axis == 1 else self._index
        take = [old.index(x) for x in labels]
        values = np.take(self._values, take, axis=axis)
        if axis == 1:
            return DataFrame(values, self._index, labels)
        return DataFrame(values, labels, self._columns)

    def to_numpy(self):
        return self._values
