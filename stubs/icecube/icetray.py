import functools


@functools.total_ordering
class OMKey(object):
    def __init__(self, string=0, om=0, pmt=0):
        self.string = int(string)
        self.om = int(om)
        self.pmt = int(pmt)

    def _key(self):
        return (self.string, self.om, self.pmt)

    def __hash__(self):
        return hash(self._key())

    def __eq__(self, other):
        return isinstance(other, OMKey) and self._key() == other._key()

    def __lt__(self, other):
        return self._key() < other._key()

    def __repr__(self):
        return 'OMKey({},{},{})'.format(*self._key())


class I3Frame(object):
    Physics = 'P'
    DAQ = 'Q'

    def __init__(self, content=None):
        self._content = dict(content or {})

    def __getitem__(self, key):
        return self._content[key]

    def __setitem__(self, key, value):
        if key in self._content:
            raise RuntimeError('frame already contains {!r}'.format(key))
        self._content[key] = value

    def __contains__(self, key):
        return key in self._content

    def __delitem__(self, key):
        del self._content[key]

    def keys(self):
        return self._content.keys()

    def Put(self, key, value):
        self[key] = value

    def Has(self, key):
        return key in self


class I3ConditionalModule(object):
    def __init__(self, context=None):
        self._params = {}
        self._values = {}
        self._boxes = []
        self.pushed = []

    def AddOutBox(self, name):
        self._boxes.append(name)

    def AddParameter(self, name, doc='', default=None):
        self._params[name] = default

    def SetParameters(self, **kwargs):
        for key, value in kwargs.items():
            if key not in self._params:
                raise KeyError(key)
            self._values[key] = value

    def GetParameter(self, name):
        if name in self._values:
            return self._values[name]
        return self._params[name]

    def PushFrame(self, frame, box=None):
        self.pushed.append(frame)


I3Module = I3ConditionalModule
