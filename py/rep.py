"""Case bookkeeping for the Python harnesses: the same contract with bin/check.py as src/common/report.hpp."""
import hashlib, json, mmap, os, signal, struct, sys, time


class Run:
    def __init__(self, argv):
        o = dict(zip(argv[::2], argv[1::2]))
        self.prop, self.thorough = o['--prop'], o['--tier'] == 'thorough'
        self.shard, self.nshards = int(o.get('--shard', 0)), int(o.get('--nshards', 1))
        self.start, self.only = int(o.get('--from', 0)), int(o.get('--only', -1))
        self.deadline = float(o.get('--deadline', 1e9))
        self.out, self.work, self.tree = o['--out'], o['--work'], o['--tree']
        self.engine = o.get('--engine')
        self.case_seconds = int(o.get('--case-seconds', 60))
        self.idx = self.evaluations = 0
        self.capped = False
        self.nt = None
        self.desc = ''
        self.nontrivial_ = 0
        self.distinct, self.outcomes, self.samples, self.fails = set(), set(), [], []
        self.stats, self.failcount = {}, {}
        self.t0 = time.time()
        self.mark = None
        if '--mark' in o:
            with open(o['--mark'], 'wb') as f:
                f.write(b'\0' * 8)
            fd = os.open(o['--mark'], os.O_RDWR)
            self.mark = mmap.mmap(fd, 8)
            os.close(fd)
        signal.signal(signal.SIGALRM, lambda *a: os._exit(97))

    def take(self):
        self.settle()
        i = self.idx
        self.idx += 1
        if self.only >= 0:
            if i != self.only:
                return False
        else:
            if self.capped or i < self.start or (i * 0x9E3779B97F4A7C15 % 2 ** 64 >> 33) % self.nshards != self.shard:
                return False
            if time.time() - self.t0 > self.deadline:
                self.capped = True
                return False
        if self.mark:
            self.mark[:8] = struct.pack('<Q', i)
        signal.alarm(self.case_seconds)
        self.evaluations += 1
        return True

    def settle(self):
        if self.nt:
            self.nontrivial_ += 1
            self.distinct.add(struct.unpack('<Q', hashlib.sha256(self.desc.encode()).digest()[:8])[0])
        self.nt = None

    def nontrivial(self):
        self.nt = True

    def sample(self, s):
        self.desc = s
        if len(self.samples) < 3:
            self.samples.append(s)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, msg, key=''):
        self.failcount[key] = self.failcount.get(key, 0) + 1
        if self.failcount[key] <= 12:
            self.fails.append({'idx': self.idx - 1, 'key': key, 'msg': msg})

    def finish(self, rule):
        self.settle()
        signal.alarm(0)
        with open(self.out, 'w') as f:
            json.dump({'evaluations': self.evaluations, 'nontrivial': self.nontrivial_, 'cases': self.idx, 'capped': self.capped, 'rule': rule,
                       'wall': time.time() - self.t0, 'samples': self.samples, 'outcomes': sorted(self.outcomes)[:200], 'stats': self.stats,
                       'failcount': self.failcount, 'fails': self.fails}, f)
        with open(self.out + '.h', 'wb') as f:
            f.write(b''.join(struct.pack('<Q', h) for h in self.distinct))
        sys.stdout.flush()
        os._exit(0)


def start():
    r = Run(sys.argv[1:])
    sys.path.insert(0, r.tree)
    return r
