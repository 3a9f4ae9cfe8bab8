"""Compares the model of lxml with lxml on random histories (development
aid for the model; no check depends on it).

  /opt/venv/bin/python tools/lxml_diff.py [rounds]
"""
import importlib
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import reallxml                                       # noqa: E402

R = reallxml.etree
RC = reallxml.cssselect
reallxml.substitute()
sys.path.insert(0, os.path.join(HERE, 'symx', 'models'))
M = importlib.import_module('lxml.etree')
MC = importlib.import_module('lxml.cssselect')
assert 'models' in M.__file__

SVG, XH, XL = ('http://www.w3.org/2000/svg', 'http://www.w3.org/1999/xhtml',
               'http://www.w3.org/1999/xlink')
DOCS = ['<svg xmlns="%s"><g id="a"><rect class="x y"/>t<!--c--></g>u<?p q?>'
        '<text>hi<tspan>yo</tspan>z</text></svg>' % SVG,
        '<?p a="b"?><!--top--><s:svg xmlns:s="%s" xmlns:l="%s" l:href="#a">'
        '<h:p xmlns:h="%s" h:q="1"><s:g/></h:p></s:svg><!--end-->'
        % (SVG, XL, XH)]
SELECTORS = ['rect', '*', 'g > rect', 'g rect', '.x', '#a', ':root', '[id]',
             's|g', 's|svg > s|g', 's|rect.y', 's|rect:first-child',
             's|text s|tspan', 's|g ~ s|text', 's|g + s|text', ':not(s|g)',
             's|text:last-child', 's|svg s|g', '[class~=y]', '[id=a]',
             's|g:empty', 's|rect:not(.x)', '[class|=x]', '[class^=x]']


def kids(etree, node):
    return list(node)


class Side(object):
    def __init__(self, etree, css):
        self.e = etree
        self.css = css
        self.nodes = []

    def know(self, node):
        for i, x in enumerate(self.nodes):
            if x is node:
                return i
        self.nodes.append(node)
        return len(self.nodes) - 1

    def walk(self, node):
        self.know(node)
        for k in node:
            self.walk(k)

    def dump(self, node):
        if node is None:
            return None
        e = self.e
        if node.tag is e.Comment:
            head = ('comment',)
        elif node.tag is e.ProcessingInstruction:
            head = ('pi', node.target)
        else:
            head = (node.tag, node.prefix, tuple(node.nsmap.items()),
                    tuple(node.attrib.items()))
        return head + (node.text, node.tail,
                       tuple(self.dump(k) for k in node))

    def state(self):
        out = []
        for x in self.nodes:
            p, n, q = x.getparent(), x.getnext(), x.getprevious()
            out.append((self.dump(x),
                        None if p is None else self.know(p),
                        None if n is None else self.know(n),
                        None if q is None else self.know(q),
                        self.ref(x.getroottree().getroot()),
                        [self.know(y) for y in x.iterancestors()],
                        [self.know(y) for y in x.itersiblings()],
                        [self.know(y) for y in
                         x.itersiblings(preceding=True)],
                        [self.know(y) for y in x.iter()],
                        ''.join(x.itertext()) if isinstance(x.tag, str) else 0))
        return out

    def ref(self, x):
        return None if x is None else self.know(x)

    def do(self, op, args):
        e, n = self.e, self.nodes
        if op == 'element':
            x = e.Element(args[0], nsmap=args[1])
            self.know(x)
        elif op == 'comment':
            self.know(e.Comment(args[0]))
        elif op == 'pi':
            self.know(e.ProcessingInstruction(args[0], args[1]))
        elif op in ('append', 'addnext', 'addprevious', 'remove'):
            getattr(n[args[0]], op)(n[args[1]])
        elif op == 'insert':
            n[args[0]].insert(args[2], n[args[1]])
        elif op == 'replace':
            n[args[0]].replace(n[args[1]], n[args[2]])
        elif op == 'index':
            return n[args[0]].index(n[args[1]])
        elif op in ('text', 'tail'):
            setattr(n[args[0]], op, args[1])
        elif op == 'set':
            n[args[0]].set(args[1], args[2])
        elif op == 'del':
            del n[args[0]].attrib[args[1]]
        elif op == 'pop':
            return n[args[0]].attrib.pop(args[1])
        elif op == 'contains':
            return n[args[1]] in n[args[0]]
        elif op == 'xpath':
            return [self.know(x) for x in
                    n[args[0]].xpath(args[1], **args[2])]
        elif op == 'css':
            sel = self.css.CSSSelector(args[1],
                                       namespaces={'s': SVG, 'h': XH})
            return [self.know(x) for x in sel(n[args[0]])]
        elif op == 'iter':
            return [self.know(x) for x in n[args[0]].iter(*args[1])]
        elif op == 'iterremove':
            out = []
            for x in iter(n[args[0]]):
                n[args[0]].remove(x)
                out.append(self.know(x))
            return out


def history(rng):
    a, b = Side(R, RC), Side(M, MC)
    src = rng.choice(DOCS)
    for s in (a, b):
        root = s.e.fromstring(src)
        s.walk(root)
        for x in root.itersiblings():
            s.know(x)
        for x in root.itersiblings(preceding=True):
            s.know(x)
    log = [src]
    for _ in range(rng.randrange(1, 14)):
        k = len(a.nodes)
        i, j, l = (rng.randrange(k) for _ in range(3))
        op = rng.choice(['element', 'comment', 'pi', 'append', 'append',
                         'addnext', 'addprevious', 'remove', 'insert',
                         'replace', 'index', 'text', 'tail', 'set', 'del',
                         'pop', 'contains', 'xpath', 'css', 'css', 'iter',
                         'remove', 'iterremove'])
        if op in ('remove', 'replace') and rng.random() < .8:
            ps = [x for x in a.nodes if x.getparent() is not None]
            if ps:
                x = rng.choice(ps)
                j = a.know(x)
                i = a.know(x.getparent())
        args = [i, j]
        if op == 'element':
            args = [rng.choice(['x', '{%s}g' % SVG, '{%s}p' % XH]),
                    rng.choice([None, {None: SVG}, {'s': SVG}])]
        elif op == 'comment':
            args = [rng.choice(['', 'c', 'a-b', 'a-', 'a--b', None])]
        elif op == 'pi':
            args = [rng.choice(['t', 'xml', '1', 'a']),
                    rng.choice([None, '', 'a="b"', '?>'])]
        elif op == 'insert':
            args = [i, j, rng.randrange(-3, 4)]
        elif op == 'replace':
            args = [i, j, l]
        elif op in ('text', 'tail'):
            args = [i, rng.choice([None, '', 'a', 'b c', '\x01', '\n'])]
        elif op in ('set', 'del', 'pop'):
            args = [i, rng.choice(['id', 'class', '{%s}href' % XL, 'a:b', '',
                                   '{u}v', '1', '{u', '{%s}lang' % M.XML_NS]),
                    rng.choice(['x', 'x y', '', None, 'a', '\x02'])]
        elif op == 'xpath':
            args = [i, *rng.choice([
                ('descendant-or-self::*', {}), ('descendant::*', {}),
                ('descendant::*[name() = $n]', {'n': rng.choice(
                    ['g', 's:g', 'h:p', 'rect'])}),
                ('.//*[local-name() = $n]', {'n': 'g'}),
                ('descendant-or-self::*[@id = $i]', {'i': 'a'}),
                ('descendant-or-self::*[@class]', {}),
                ('descendant::*[namespace-uri() = $u and local-name() = $l]',
                 {'u': SVG, 'l': 'g'})])]
        elif op == 'css':
            args = [i, rng.choice(SELECTORS)]
        elif op == 'iter':
            args = [i, rng.choice([(), ('*',), ('{*}g',), ('{%s}g' % SVG,),
                                   ('g',), ('{*}g', '{*}rect')])]
        log.append((op, args))
        out = []
        for s in (a, b):
            try:
                out.append(('ok', s.do(op, args)))
            except Exception as e:
                out.append((type(e).__name__,
                            str(e)[:40] if isinstance(e, ValueError) else None))
            except BaseException as e:
                out.append(('gap', str(e)))
        if out[1][0] == 'gap':
            return log, 'gap ' + out[1][1]
        if out[0] != out[1]:
            return log, 'results %r' % (out,)
        sa, sb = a.state(), b.state()
        if sa != sb:
            for i, (x, y) in enumerate(zip(sa, sb)):
                if x != y:
                    return log, 'state of %d:\n  %r\n  %r' % (i, x, y)
            return log, 'different nodes'
    return log, None


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 20000
    bad, gaps = {}, {}
    for seed in range(n):
        log, what = history(random.Random(seed))
        if what is None:
            continue
        if what.startswith('gap'):
            gaps[what] = gaps.get(what, 0) + 1
            continue
        k = what.split('\n')[0].split(' ')[0] + ' ' + str(log[-1][0])
        if k not in bad or len(log) < len(bad[k][0]):
            bad[k] = (log, what)
    for k, (log, what) in bad.items():
        print('==', k)
        for x in log:
            print('   ', x)
        print('  ', what)
    print('gaps', gaps)
    print('%d histories, %d kinds of difference' % (n, len(bad)))


main()
