"""The harness API on concrete inputs: runs a harness against the real,
un-instrumented code (used to replay counterexamples and validate samples)."""


class Stop(BaseException):
    pass


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failed = []
        self.logs = []
        self.covers = set()
        self.missing = []

    def _get(self, name, lo, hi, default):
        if name in self.inputs:
            return self.inputs[name]
        self.missing.append(name)
        v = default
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        return v

    def int(self, name, lo=None, hi=None, like=0):
        return int(self._get(name, lo, hi, like))

    bits = int

    def real(self, name, lo, hi):
        from fractions import Fraction
        return float(Fraction(self._get(name, None, None, str(lo))))

    def text(self, name, length):
        return "".join(chr(self._get("%s%d" % (name, i), 0, 0x10FFFF, 65)) for i in range(length))

    def bool(self, name):
        return bool(self._get(name, None, None, False))

    def choice(self, name, options):
        return options[int(self._get(name, 0, len(options) - 1, 0))]

    def assume(self, c):
        if not c:
            raise Stop("assumption does not hold")

    def all(self, cs):
        return all([bool(c) for c in cs])

    def number(self, text):
        try:
            return int(text.replace(",", ""))
        except ValueError:
            return None

    def solved(self, f):
        return f()

    def check(self, c, label, info=None):
        if not c:
            self.failed.append(label)

    def flush(self):
        pass

    def cover(self, label):
        self.covers.add(label)

    def log(self, key, value):
        self.logs.append([key, plain(value)])


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return str(v)
