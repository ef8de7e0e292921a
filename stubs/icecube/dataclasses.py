import math
from .icetray import OMKey


class _SortedMap(dict):
    def items(self):
        return [(k, self[k]) for k in sorted(self.keys())]

    def __iter__(self):
        return iter(sorted(dict.keys(self)))


class I3MapStringDouble(dict):
    pass


class I3MapKeyDouble(_SortedMap):
    pass


class I3MapKeyVectorDouble(_SortedMap):
    pass


class I3VectorDouble(list):
    pass


class I3VectorOMKey(list):
    pass


class I3Double(object):
    def __init__(self, value=0.):
        self.value = value


class I3RecoPulse(object):
    def __init__(self, time=0., charge=0., width=0.):
        self.time = time
        self.charge = charge
        self.width = width


class I3RecoPulseSeries(list):
    pass


class I3RecoPulseSeriesMap(_SortedMap):
    pass


class I3RecoPulseSeriesMapMask(object):
    """A mask on top of another pulse series in the frame."""

    def __init__(self, key, keep):
        self.key = key
        self.keep = keep

    def apply(self, frame):
        out = I3RecoPulseSeriesMap()
        for omkey, series in frame[self.key].items():
            kept = I3RecoPulseSeries([
                p for i, p in enumerate(series) if self.keep(omkey, i)])
            if len(kept):
                out[omkey] = kept
        return out


class I3RecoPulseSeriesMapUnion(object):
    def __init__(self, keys):
        self.keys = keys

    def apply(self, frame):
        out = I3RecoPulseSeriesMap()
        for key in self.keys:
            for omkey, series in frame[key].items():
                out[omkey] = I3RecoPulseSeries(
                    sorted(list(out.get(omkey, [])) + list(series),
                           key=lambda p: p.time))
        return out


class I3TimeWindow(object):
    def __init__(self, start=0., stop=0.):
        self.start = start
        self.stop = stop


class I3TimeWindowSeries(list):
    pass


class I3TimeWindowSeriesMap(_SortedMap):
    pass


class I3Position(object):
    def __init__(self, x=0., y=0., z=0.):
        self.x, self.y, self.z = x, y, z

    @property
    def magnitude(self):
        return math.sqrt(self.x**2 + self.y**2 + self.z**2)


class I3Direction(object):
    def __init__(self, zenith=0., azimuth=0.):
        self.zenith = zenith
        self.azimuth = azimuth % (2 * math.pi)


class I3Particle(object):
    unknown, NuE, NuMu, NuTau = 'unknown', 'NuE', 'NuMu', 'NuTau'
    NuEBar, NuMuBar, NuTauBar = 'NuEBar', 'NuMuBar', 'NuTauBar'
    Hadrons, Pi0, Gamma, PairProd = 'Hadrons', 'Pi0', 'Gamma', 'PairProd'
    Brems, DeltaE, NuclInt = 'Brems', 'DeltaE', 'NuclInt'
    EMinus, EPlus, MuMinus, MuPlus = 'EMinus', 'EPlus', 'MuMinus', 'MuPlus'
    TauMinus, TauPlus = 'TauMinus', 'TauPlus'
    PiPlus, PiMinus = 'PiPlus', 'PiMinus'
    InfiniteTrack, Cascade, Null = 'InfiniteTrack', 'Cascade', 'Null'
    OK, NotSet = 'OK', 'NotSet'

    def __init__(self):
        self.pos = I3Position()
        self.dir = I3Direction()
        self.energy = float('nan')
        self.time = float('nan')
        self.speed = 0.299792458
        self.length = float('nan')
        self.type = I3Particle.unknown
        self.shape = I3Particle.Null
        self.fit_status = I3Particle.NotSet


class I3MCTree(object):
    """Primaries and daughters of particles."""

    def __init__(self):
        self._primaries, self._daughters = [], {}

    def add_primary(self, particle):
        self._primaries.append(particle)

    def append_child(self, parent, particle):
        self._daughters.setdefault(id(parent), []).append(particle)

    def get_primaries(self):
        return list(self._primaries)

    def get_daughters(self, particle):
        return list(self._daughters.get(id(particle), []))
