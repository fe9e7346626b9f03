"""What a harness may use; this is the concrete side (no solver, no proxies)."""
import datetime, os, struct, time

# A known local time zone, for naive datetimes (see tools/mk_local_tz.py): it skips an hour in 2004, repeats three in 2017.
os.environ["TZ"] = ":" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "local.tz")
time.tzset()
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


class Dst(datetime.tzinfo):
    def __init__(self, t, before, after):
        self.t, self.before, self.after = t, before, after

    def wall(self, dt):
        return (dt.replace(tzinfo=datetime.timezone.utc) - EPOCH) // datetime.timedelta(microseconds=1)

    def utcoffset(self, dt):
        if dt is None:
            return None
        f = max if dt.fold == 0 else min
        return datetime.timedelta(microseconds=self.before if self.wall(dt) < self.t + f(self.before, self.after) else self.after)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return "Y"

    def fromutc(self, dt):
        u = self.wall(dt)
        off = self.before if u < self.t else self.after
        fold = self.before > self.after and self.t <= u < self.t + self.before - self.after
        return (dt.replace(fold=0) + datetime.timedelta(microseconds=off)).replace(fold=int(fold))


class AssumeFailed(BaseException):
    pass


class VPViolation(BaseException):
    def __init__(self, label, info=""):
        self.label, self.info = label, info


class _SBase:
    sym = False

    def __init__(self):
        self.obs = []
        self.marks = []
        self.tags = []

    def reached(self, label):
        self.marks.append(label)

    def finding(self, fid, cond=True):
        """Inputs satisfying cond fall under the recorded finding `fid`."""
        if cond:
            self.tags.append(fid)
            return True
        return False

    def observe(self, *xs):
        self.obs.extend(xs)

    def fail(self, label, info=""):
        raise VPViolation(label, info)

    def check(self, cond, label, info=""):
        if not cond:
            raise VPViolation(label, info)

    def concrete(self, x):
        """Enumerate the values of x (forks per value when symbolic)."""
        return x

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def choice(self, name, options):
        """One of a list (or of range(n)); forks."""
        if type(options) is int:
            options = range(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.concrete(i)]

    def flag(self, name):
        """A concrete bool; forks."""
        return self.choice(name, [False, True])

    def same(self, a, b):
        """Same object identity."""
        return a is b

    def hash(self, x):
        """hash(x), to be compared with ==."""
        return hash(x)


class PlainS(_SBase):
    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs

    def int(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            v = 0 if lo <= 0 <= hi else lo
        return v

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def datetime(self, us, tz):
        """The datetime of an instant (microseconds since the epoch) in a zone of tz(), or naive local time."""
        if tz is None:
            return datetime.datetime.fromtimestamp(us // 10 ** 6).replace(microsecond=us % 10 ** 6)
        return (EPOCH + datetime.timedelta(microseconds=us)).astimezone(tz)

    def tz(self, off_us):
        """A time zone with a fixed offset."""
        return datetime.timezone(datetime.timedelta(microseconds=off_us))

    def dst(self, t, before, after):
        """A time zone whose offset changes once."""
        return Dst(t, before, after)

    def double(self, name):
        return struct.unpack("<d", struct.pack("<Q", self.inputs.get(name, 0)))[0]

    def str(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        cs = [self.int("%s.%d" % (name, i), lo, hi) for i in range(n)]
        if not surrogates and lo < 0xE000 and hi >= 0xD800:
            for c in cs:
                self.assume(not 0xD800 <= c <= 0xDFFF)
        return "".join(map(chr, cs))

    def bytes(self, name, n):
        return bytes(self.int("%s.%d" % (name, i), 0, 255) for i in range(n))

    def all(self, xs):
        return all(xs)

    def any(self, xs):
        return any(xs)

    def not_(self, x):
        return not x


