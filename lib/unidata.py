"""Turns the Unicode data files shipped in /repo/gen_unicode_hpp into harness/unicode.cpp's oracle."""
import os, re


def load(repo):
    d = os.path.join(repo, 'gen_unicode_hpp'); cat = {}; up = {}; first = None
    for l in open(os.path.join(d, 'UnicodeData.txt')):
        f = l.strip().split(';')
        if len(f) < 15:
            continue
        c = int(f[0], 16)
        if f[1].endswith('First>'):
            first = c; continue
        cat.setdefault(f[2], []).append((first if f[1].endswith('Last>') else c, c))
        # a lower case letter links to its upper case form, an upper case letter to its lower case form
        if f[2] == 'Ll' and f[12]:
            up[c] = int(f[12], 16)
        if f[2] == 'Lu' and f[13]:
            up[c] = int(f[13], 16)
    p = dict(cat)
    for g in sorted({k[0] for k in cat}):
        p[g] = sum((v for k, v in cat.items() if k[0] == g), [])
    p['LC'] = cat['Ll'] + cat['Lt'] + cat['Lu']
    for fn, pre in (('Scripts.txt', 'Is'), ('Blocks.txt', 'In')):
        for l in open(os.path.join(d, fn)):
            l = l.split('#')[0].strip()
            if l:
                r, n = [x.strip() for x in l.split(';')]; a, *b = r.split('..')
                p.setdefault(pre + (n if pre == 'Is' else re.sub(r'[^A-Za-z0-9-]', '_', n)), []).append((int(a, 16), int((b or [a])[0], 16)))
    return {k: norm(v) for k, v in p.items()}, up


def norm(s):
    o = []
    for a, b in sorted(s):
        if o and a <= o[-1][1] + 1:
            o[-1][1] = max(o[-1][1], b)
        else:
            o.append([a, b])
    return o


def cases(up):
    """single characters and ranges on, inside and around every run of links"""
    r = []; runs = []; cs = sorted(up)
    for c in cs:
        if runs and runs[-1][1] + 1 == c and up[c] - c == up[runs[-1][1]] - runs[-1][1]:
            runs[-1][1] = c
        else:
            runs.append([c, c])
    for c in cs:
        r.append((c, c))
    for a, b in runs:
        r += [(a, b), (a - 1, b + 1), (a - 1, a), (b, b + 1), (a - 1, a - 1), (b + 1, b + 1), (a + 1, a + 2), (a, a + 1), (b - 1, b)]
        if b - a > 2:
            r += [(a + 1, b - 1), (a - 2, a + 1), (b - 1, b + 3), (a + (b - a) // 2, b + 1)]
    for i in range(0, len(runs) - 40, 13):
        r += [(runs[i][0], runs[i + 3][1]), (runs[i][1], runs[i + 7][0]), (runs[i][0] + 1, runs[i + 1][0]), (runs[i][1], runs[i + 30][0])]
    r += [(0, 0xffff), (0xff00, 0x10427), (0xffff, 0x10400), (0x10000, 0x10ffff), (0, 0x40), (0x5b, 0x60), (0x61, 0x10ffff), (0x1000, 0x10401)]
    seen = set(); o = []
    for x in r:
        if x not in seen and 0 <= x[0] <= x[1]:
            seen.add(x); o.append(x)
    return o


def write(repo, tmp, here):
    p, up = load(repo); o = ['#pragma once', 'typedef unsigned int uu; struct Prop { const char* name; int at, n; };']; rs = []; ps = []
    for k in sorted(p):
        ps.append('{"%s",%d,%d}' % (k, len(rs), len(p[k]))); rs += p[k]
    cs = cases(up)
    o.append('static const uu RANGES[][2] = {%s};' % ','.join('{%d,%d}' % tuple(x) for x in rs))
    o.append('static const Prop PROPS[] = {%s}; static const unsigned NPROP = %d;' % (','.join(ps), len(ps)))
    o.append('static const uu LINKS[][2] = {%s}; static const int NLINK = %d;' % (','.join('{%d,%d}' % x for x in sorted(up.items())), len(up)))
    o.append('static const uu CASES[][2] = {%s}; static const unsigned NCASE = %d;' % (','.join('{%d,%d}' % x for x in cs), len(cs)))
    open(os.path.join(tmp, 'unidata.h'), 'w').write('\n'.join(o) + '\n')
    return sorted(p), len(cs)


if __name__ == '__main__':
    ps, n = write('/repo', '/tmp', ''); print(len(ps), n)
