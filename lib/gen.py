"""Random inputs and histories. Everything is drawn from one seeded generator."""
import random

SPACE = 32
BOUNDARY = [0, 1, 2, 3, 9, 10, 13, 0x1f, 0x21, 0x2f, 0x30, 0x39, 0x40, 0x5f, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xad,
            0xff, 0x100, 0x101, 0x17f, 0x1ff, 0x2ff, 0x301, 0x3ff, 0x400, 0x5d0, 0x7ff, 0x800, 0xfff, 0x1000,
            0x1680, 0x2000, 0x2003, 0x200b, 0x2028, 0x202e, 0x3000, 0x3fff, 0x4000, 0x4e2d, 0x7fff, 0x8000,
            0xd7ff, 0xe000, 0xf8ff, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0x1f64f,
            0x1ffff, 0x20000, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


# code points that some notion of "the same letter" confuses
ALIKE = [[0x61, 0x41], [0x6b, 0x4b, 0x212a], [0x73, 0x53, 0x17f], [0x3c3, 0x3c2, 0x3a3], [0xe5, 0xc5, 0x212b], [0x69, 0x49, 0x130, 0x131],
         [0x436, 0x416], [0xdf, 0x1e9e], [0x1c4, 0x1c5, 0x1c6], [0xb5, 0x3bc, 0x39c], [0x10400, 0x10428], [0x65, 0xe9, 0x301],
         [0x61, 0x430, 0xff41], [0x31, 0x661, 0xff11, 0x2460], [0x2d, 0x2010, 0x2212, 0xad], [0x27, 0x2019], [0x22, 0x60],
         [0x9, 0xa, 0xb, 0xc, 0xd, 0xa0, 0x85, 0x2003, 0x3000], [0x200b, 0x200c, 0x200d, 0xfeff], [0xfffd, 0x61], [0, 1, 0x61],
         [0x110, 0x10, 0x1010], [0x141, 0x41, 0x10041], [0x4e2d, 0x4e2e, 0x9c5a], [0x2c, 0x2e, 0x3b]]


def valid(c):
    return 0 <= c <= 0x10ffff and not 0xd800 <= c <= 0xdfff and c != SPACE


def t(s):
    return tuple(ord(c) for c in s)


class Texts:
    """Interns texts as 1-based numbers of a job."""

    def __init__(self):
        self.list = []
        self.ids = {}

    def id(self, text):
        text = tuple(text)
        if text not in self.ids:
            self.list.append(list(text))
            self.ids[text] = len(self.list)
        return self.ids[text]


class Gen:
    def __init__(self, seed, big=False):
        self.r = random.Random(seed)
        self.big = big
        self.recent = []       # texts of the current history
        self.words = []        # words of the current history
        self.fresh()

    def fresh(self):
        self.recent, self.words = [], []
        self.pairs = []
        self.said = []         # object and property of every remark of the current history
        self.alphabet = self.pick_alphabet()

    def pick_alphabet(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return [ord(c) for c in 'ab']
        if k < 0.32:
            return [ord(c) for c in 'abcxyzABC']
        if k < 0.37:
            # what formats, escapes and patterns are written with
            return [ord(c) for c in r.sample('%\\"\'`<>&#{}$+-*?.|/^~[]():;=,@!_', r.randrange(2, 6)) + list('sdvnx0')]
        if k < 0.50:
            return [c for f in r.sample(ALIKE, r.choice([1, 1, 2])) for c in f]
        if k < 0.70:
            # one code point and its binary prefixes and extensions
            c = r.choice([0x61, 0xc2, 0xc3, 0x185, 0x430, 0x4e2d, 0x1f600, 0x10ffff, r.randrange(33, 0x10ffff)])
            fam = [c >> i for i in range(0, 20)] + [c << 1, (c << 1) + 1]
            fam = [x for x in fam if valid(x) and x > 0]
            return r.sample(fam, min(len(fam), r.randrange(2, 7))) or [97]
        if k < 0.85:
            return r.sample(BOUNDARY, r.randrange(2, 8))
        out = []
        while len(out) < 6:
            c = r.choice([r.randrange(33, 127), r.randrange(128, 0x800), r.randrange(0x800, 0x10000), r.randrange(0x10000, 0x110000)])
            if valid(c):
                out.append(c)
        return out

    def word(self):
        r = self.r
        k = r.random()
        if self.words and k < 0.30:
            w = r.choice(self.words)
            m = r.random()
            if m < 0.35:
                return w
            if m < 0.55:
                return w[:r.randrange(1, len(w) + 1)]
            if m < 0.75:
                return w + (r.choice(self.alphabet),)
            if m < 0.85:
                return w[::-1]
            i = r.randrange(len(w))
            return w[:i] + (r.choice(self.alphabet) if m < 0.92 else self.near(w[i]),) + w[i + 1:]
        if k > 0.95 and k <= 0.985:
            # one letter, or two in turn, over and over
            a, b = r.choice(self.alphabet), r.choice(self.alphabet)
            return ((a, b) if r.random() < 0.4 else (a, a))[:1 + r.randrange(2)] * r.randrange(2, 9)
        n = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7])
        if k > 0.985:
            n = r.randrange(20, 60)
        if self.big and k > 0.995:
            n = r.randrange(60, 400)
        return tuple(r.choice(self.alphabet) for _ in range(n))

    def near(self, c):
        """A code point that is easily taken for c."""
        like = [x for f in ALIKE if c in f for x in f]
        try:
            like += [ord(chr(c).upper()), ord(chr(c).lower()), ord(chr(c).swapcase())]
        except TypeError:
            pass
        like += [c + 1, c - 1, c ^ 0x20, c ^ 0x100, c ^ 0x10000, c & 0xff, c & 0xffff, c >> 1, c << 1]
        like = [x for x in like if valid(x) and x != c]
        return self.r.choice(like) if like else c

    def text(self):
        r = self.r
        k = r.random()
        if self.recent and k < 0.30:
            return r.choice(self.recent)
        if self.recent and k < 0.45:
            ws = self.split(r.choice(self.recent))
            m = r.random()
            if m < 0.3:
                ws = ws[:r.randrange(1, len(ws) + 1)]
            elif m < 0.6:
                ws = ws + [self.word()]
            elif m < 0.85:
                i = r.randrange(len(ws))
                j = r.randrange(len(ws[i]))
                ws[i] = ws[i][:j] + (self.near(ws[i][j]),) + ws[i][j + 1:]
            else:
                ws = ws[::-1]
        else:
            n = r.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4])
            if k > 0.985:
                n = r.randrange(8, 25)
            if self.big and k > 0.995:
                n = r.randrange(25, 80)
            ws = [self.word() for _ in range(n)]
            if len(ws) > 1 and r.random() < 0.2:
                ws[1] = ws[0]
            if r.random() < 0.06:
                # one word, or the same words, over and over
                ws = (ws[:r.randrange(1, 4)] * r.randrange(2, 9))[:18]
        self.words += ws
        out = ws[0]
        for w in ws[1:]:
            out = out + (SPACE,) + w
        self.recent.append(out)
        return out

    @staticmethod
    def split(text):
        ws, cur = [], ()
        for c in text:
            if c == SPACE:
                ws.append(cur)
                cur = ()
            else:
                cur += (c,)
        return ws + [cur]

    def pair(self):
        r = self.r
        k = r.random()
        if self.pairs and k < 0.15:
            return r.choice(self.pairs)
        if self.pairs and k < 0.25:
            return r.choice(self.pairs)[::-1]
        o = self.text()
        p = o if k < 0.33 else self.text()
        self.pairs.append((o, p))
        return o, p

    def malformed(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return ()
        if k == 1:
            return (SPACE,) * r.randrange(1, 4)
        a, b = self.text(), self.text()
        if r.random() < 0.06:
            a = ((a + (SPACE,)) * r.randrange(2, 70))[:-1]
        if r.random() < 0.06:
            b = ((b + (SPACE,)) * r.randrange(2, 70))[:-1]
        if k in (2, 3):
            return a + (SPACE,) * r.randrange(1, 3)
        if k in (4, 5):
            return (SPACE,) * r.randrange(1, 3) + a
        return a + (SPACE,) * r.randrange(2, 4) + b

    # histories -----------------------------------------------------------

    def op(self, texts, n, weights, via='hgnk', handle=None):
        """One operation on one of n remarks."""
        r = self.r
        c = 'cs' if n == 0 else r.choices(['cs', 'ar', 'af', 'cc'], weights)[0]
        h = 0
        if c != 'cs':
            h = handle(n) if handle else r.randrange(1, n + 1)
        o, p = self.about(c, h)
        s = {'c': c, 'o': 0 if c == 'ar' else texts.id(o), 'p': texts.id(p), 'v': r.choice(via)}
        if h:
            s['h'] = h
        return s

    def about(self, c, h):
        """Texts for an operation on remark h, now and then taken from what h itself says."""
        o, p = self.pair()
        if 0 < h <= len(self.said):
            ho, hp = self.said[h - 1]
            k = self.r.random()
            if c == 'ar':
                p = ho if k < 0.14 else hp if k < 0.24 else p
                o = ho
            elif k < 0.08:
                o, p = ho, hp
            elif k < 0.12:
                o, p = hp, ho
            elif k < 0.16:
                o = ho
            elif k < 0.20:
                o = hp
        self.said.append((o, p))
        return o, p

    PROFILES = {
        'mixed': [2, 3, 4, 3],
        'facts': [1, 1, 12, 1],
        'trees': [1, 1, 2, 10],
        'remarks': [1, 12, 2, 1],
        'roots': [8, 2, 3, 2],
    }

    def history(self, texts, length, profile=None, via='hgnk'):
        r = self.r
        self.fresh()
        w = self.PROFILES[profile or r.choice(list(self.PROFILES))]
        style = r.random()

        def handle(n):
            if style < 0.4:
                return r.randrange(1, n + 1)
            if style < 0.6:
                return r.choice([1, n])
            if style < 0.8:
                return max(1, n - r.randrange(0, 3))
            return r.randrange(1, min(n, 3) + 1)
        return [self.op(texts, n, w, via, handle) for n in range(length)]

    def dress(self, texts, skeleton, via='g'):
        """Give texts to an enumerated history."""
        out = []
        self.said = []
        for s in skeleton:
            o, p = self.about(s['c'], s.get('h', 0) or 0)
            d = {'c': s['c'], 'o': 0 if s['c'] == 'ar' else texts.id(o), 'p': texts.id(p), 'v': self.r.choice(via)}
            if s['c'] != 'cs':
                d['h'] = s['h']
            out.append(d)
        return out
