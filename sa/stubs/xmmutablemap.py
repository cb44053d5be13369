"""Model of xmmutablemap.ImmutableMap: an immutable mapping over `_data`."""
from collections.abc import Mapping


class ImmutableMap(Mapping):
    def __init__(self, *args, **kwargs):
        self._data = dict(*args, **kwargs)

    def __contains__(self, key):
        return key in self._data

    def __iter__(self):
        return iter(self._data)

    def __len__(self):
        return len(self._data)

    def __getitem__(self, key):
        return self._data[key]

    def keys(self):
        return self._data.keys()

    def values(self):
        return self._data.values()

    def items(self):
        return self._data.items()

    def get(self, key, default=None):
        return self._data.get(key, default)

    def __or__(self, value):
        if not isinstance(value, Mapping):
            return NotImplemented
        return type(self)(self._data | dict(value))
