"""Talking to src/engine.cpp."""
import re
import subprocess


class Engine:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, line):
        self.p.stdin.write(line + '\n')
        self.p.stdin.flush()
        out = []
        while True:
            x = self.p.stdout.readline()
            if not x:
                raise RuntimeError('the engine died on ' + line)
            if x == 'end\n':
                return out
            out.append(x.rstrip('\n'))

    @staticmethod
    def polys(scene):
        return '%d ' % len(scene) + ' '.join('%d ' % len(p) + ' '.join('%r %r' % v for v in p) for p in scene)


def parse(s):
    if not s.startswith('ok'):
        return s
    v = list(map(float, s.split()[1:]))
    return list(zip(v[::2], v[1::2]))


def canon(text):
    """The text of a graph with the order of vertices and neighbours taken out."""
    lines = set()
    for line in text.split('\n'):
        t = re.findall(r'\([^()]*\)', line)
        if t:
            lines.add((t[0], tuple(sorted(t[1:]))))
    return frozenset(lines) or text
