"""PartialDateTime of the iris stand-in."""
import operator


class PartialDateTime:
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    timetuple = None

    def __init__(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        self.year = year
        self.month = month
        self.day = day
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond

    def __repr__(self):
        attr_pieces = [
            "{}={}".format(name, getattr(self, name))
            for name in self.__slots__
            if getattr(self, name) is not None
        ]
        return "PartialDateTime({})".format(", ".join(attr_pieces))

    def __gt__(self, other):
        if isinstance(other, type(self)):
            raise TypeError("Cannot order PartialDateTime instances.")
        if not all(hasattr(other, n) for n in self.__slots__):
            return NotImplemented
        for name in self.__slots__:
            attr = getattr(self, name)
            if attr is not None:
                oattr = getattr(other, name)
                if attr != oattr:
                    return attr > oattr
        return False

    def __lt__(self, other):
        if isinstance(other, type(self)):
            raise TypeError("Cannot order PartialDateTime instances.")
        if not all(hasattr(other, n) for n in self.__slots__):
            return NotImplemented
        for name in self.__slots__:
            attr = getattr(self, name)
            if attr is not None:
                oattr = getattr(other, name)
                if attr != oattr:
                    return attr < oattr
        return False

    def _eq(self, other):
        if isinstance(other, PartialDateTime):
            return all(getattr(self, n) == getattr(other, n) for n in self.__slots__)
        if not all(hasattr(other, n) for n in self.__slots__):
            return NotImplemented
        for name in self.__slots__:
            attr = getattr(self, name)
            if attr is not None and attr != getattr(other, name):
                return False
        return True

    def __eq__(self, other):
        return self._eq(other)

    def __ne__(self, other):
        r = self._eq(other)
        return r if r is NotImplemented else not r

    def __ge__(self, other):
        r = self.__gt__(other)
        return r if r is NotImplemented else r or self._eq(other) is True

    def __le__(self, other):
        r = self.__lt__(other)
        return r if r is NotImplemented else r or self._eq(other) is True

    __hash__ = None
