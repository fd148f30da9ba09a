"""behaviour-preserving rewrites used to look for false alarms: refac.py REPO SET..."""
import sys, re, os
HERE = os.path.dirname(os.path.abspath(__file__))


def rep_func(src, name, new):
    m = re.search(r'^static [^\n;{]*\b%s\((?:[^;{]*?)\)[^;{]*\{' % re.escape(name), src, re.M)
    assert m, name
    i = m.start()
    e = src.index('\n}\n', m.end()) + 3
    return src[:i] + new.strip() + '\n' + src[e:]


def main():
    repo = sys.argv[1]
    for st in sys.argv[2:]:
        ns = {}
        exec(open(os.path.join(HERE, 'refacs', st + '.py')).read(), ns)
        for f, l in ns['R'].items():
            p = os.path.join(repo, 'pyfastutil/src', f)
            s = open(p).read()
            for name, new in l:
                if callable(name):
                    s = name(s)
                elif name is None:
                    old, nw = new
                    assert old in s, old
                    s = s.replace(old, nw)
                else:
                    s = rep_func(s, name, new)
            open(p, 'w').write(s)


main()
