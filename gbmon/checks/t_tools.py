"""T01: the command line. T02: the filter of Wikipedia dumps."""

import io
import os
import runpy
import subprocess
import sys

import gbmon.hist as hist
import gbmon.wordnets as wordnets
from gbmon.core import REPO, Check, HarnessError, Violation, register, scratch
from gbmon.model import Model, same_edge_set
from gbmon.stubs import mysql_server

T01 = register(Check(
    'T01', 'Random sequences of commands (create, wordnet, shell; each backend, options and defaults, in and out of '
    'the current directory) are run through the command line interface: they have to succeed, to work on the database '
    'that was named, with the connection parameters that were given, keep what it has, and touch no other file. '
    'distinct_nontrivial counts distinct command lines.',
    assumptions=['a stand-in and not a MySQL server; the WordNet corpus is a stand-in'],
    need=['commands', 'sqlite', 'mysql', 'null', 'defaults', 'wordnets', 'refused']))


def content(hg):
    res = set()
    for n in range(1, 6):
        res |= hg.pattern2edges((None,) * n)
    return res


@T01.kind('commands', 80, 1500, 'sequences of commands')
def t01(rng, obs, params):
    from click.testing import CliRunner
    from gb.gbrain import cli
    from gb.hypergraph.hypergraph import HyperGraph
    home = os.getcwd()
    with scratch() as d:
        work = os.path.join(d, 'work')
        data = os.path.join(d, 'data')
        os.mkdir(work)
        os.mkdir(data)
        os.mkdir(os.path.join(work, 'sub'))
        os.chdir(work)
        try:
            known = {}       # database -> model
            names = {'sqlite': ['gb.db', 'other.db', 'sub/x.db', os.path.join(data, "o'x.db"), 'a b.db', 'what?x=1.db', 'a#b.db', '100%25.db',
                                u'\u00e9.db', 'file', '-', '~', '~x.db', '$HOME', '${HOME}.db', '%d.db', 'GB.DB', 'gb', 'a.b.c', 'sub/../y.db', './z.db'],
                     'mysql': ['gb.db', 'gbtest', 'other']}
            mysql_server.paths = dict((n, os.path.join(data, 'mysql_%d' % i)) for i, n in enumerate(names['mysql']))
            for i in range(rng.randint(2, 6)):
                backend = rng.choice(['sqlite', 'sqlite', 'sqlite', 'mysql', 'null'])
                command = rng.choice(['create', 'create', 'wordnet', 'shell'])
                args, given = [], {}
                if backend != 'sqlite' or rng.random() < 0.4:
                    args += ['--backend', backend]
                db = 'gb.db'
                if rng.random() < 0.7:
                    db = rng.choice(names.get(backend, ['x']))
                    args += ['--db', db]
                else:
                    obs.count('defaults')
                for option, name in (('--dbhost', 'host'), ('--dbuser', 'user'), ('--dbpass', 'passwd')):
                    given[name] = {'host': 'localhost', 'user': 'gb', 'passwd': 'gb'}[name]
                    if rng.random() < 0.5:
                        given[name] = rng.choice(['x', 'db.example.org', 'my pass', "it's", '1'] + (
                            ['', ' x ', '0', 'Mary', 'gb', '$HOME', '~', 'p%40:/@?#', '-', u'\u00e9', 'x' * 200, '"', '\\']
                            if name != 'host' else []))
                        args += [option, given[name]]
                synsets = wordnets.random_wordnet(rng, rng.randint(1, 3), 0.1)
                wordnets.use(synsets)
                mysql_server.connections = []
                files = all_files(d)
                obs.log(args, command)
                obs.seen((args, command))
                res = CliRunner().invoke(cli, args + [command])
                obs.count('commands')
                obs.count(backend)
                if res.exit_code != 0:
                    raise Violation('%r failed: %r' % (args + [command], res.exception or res.output), res.output)
                new = all_files(d) - files
                if backend == 'mysql':
                    got = [dict((k, c.get(k)) for k in ('host', 'user', 'passwd', 'db'))
                           for c in mysql_server.connections]
                    given['db'] = db
                    if not got or any(c != given for c in got):
                        raise Violation('%r connects with %r, instead of %r' % (args, got, given))
                elif mysql_server.connections:
                    raise Violation('%r connects to MySQL' % (args,))
                where = os.path.normpath(os.path.join(work, db)) if backend == 'sqlite' else mysql_server.paths.get(db)
                if backend == 'null':
                    if new:
                        raise Violation('the null backend wrote files: %r' % (new,))
                    continue
                stray = [f for f in new if not f.startswith(where)]
                if stray:
                    raise Violation('%r wrote %r' % (args, stray))
                if not os.path.exists(where):
                    raise Violation('%r did not create %r' % (args, db))
                name = os.path.normpath(db)
                model = known.setdefault((backend, name), Model())
                if command == 'wordnet':
                    obs.count('wordnets')
                    for e in wordnets.expected(synsets):
                        model.add_belief('wordnet/gb', e)
                for (b, n), m in known.items():
                    hg = HyperGraph({'backend': b, 'db': os.path.join(work, n) if b == 'sqlite' else n,
                                     'host': 'h', 'user': 'u', 'password': 'p'})
                    bad = same_edge_set(content(hg), list(m.edges.values()))
                    if bad:
                        raise Violation('after %r, the %s database %r %s' % (args + [command], b, n, bad))
                    for e in rng.sample(sorted(m.edges.values(), key=repr), min(3, len(m.edges))):
                        if not hg.exists(e):
                            raise Violation('%r is not in %r' % (e, n))
                    if (b, n) == (backend, name) and rng.random() < 0.3:
                        e = ('by', 'hand', 'x%d' % i)
                        hg.add(e)
                        m.add(e)
                    hist.close_hg(hg)
            before = all_files(d)
            for bad in (['--backend', 'nonsense', '--db', 'bad.db', 'create'], ['nonsense'], ['--nonsense', 'create'],
                        ['--db', 'no/such/folder.db', 'create'], ['--db', 'sub', 'wordnet'], ['--db', 'no/x.db', 'shell']):
                res = CliRunner().invoke(cli, bad)
                if res.exit_code == 0:
                    raise Violation('%r succeeds' % (bad,))
                obs.count('refused')
            if all_files(d) != before:
                raise Violation('a command that is refused leaves files: %r' % (all_files(d) - before,))
        finally:
            os.chdir(home)
    obs.sample = obs.trace[:5]


def all_files(d):
    return set(os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs)


@T01.kind('process', 4, 20, 'the command in a process of its own')
def t01_process(rng, obs, params):
    """gbrain create, as it is installed."""
    with scratch() as d:
        db = rng.choice(['gb.db', 'x.db'])
        args = [] if db == 'gb.db' else ['--db', db]
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
        p = subprocess.run([sys.executable, '-m', 'gb.gbrain'] + args + ['create'], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0 or os.listdir(d) != [db]:
            raise Violation('gbrain %r create: exit %r, files %r' % (args, p.returncode, os.listdir(d)),
                            p.stderr[-1500:])
        w = hist.World(rng, obs, os.path.join(d, db))
        for _ in range(5):
            w.step()
        hist.full_audit(w)
        obs.count('commands')
        obs.seen((args, params['i']))


T02 = register(Check(
    'T02', 'Random dumps in the format of MediaWiki (titles with colons, parentheses, tags and unicode; text with '
    'colons and escaped tags; no pages, adjacent pages, text around them, a dump that breaks off) are filtered, in this process and as a '
    'script: the output has to be the input without the pages whose title has a colon, line by line. '
    'distinct_nontrivial counts distinct dumps.',
    assumptions=['a page starts and ends on lines of its own and has its title on one line, as in the dumps'],
    need=['dumps', 'pages_kept', 'pages_dropped', 'script_runs', 'untitled']))

TITLES = ['Berlin', 'Talk:Berlin', 'File:X.png', ':', 'a:', ':a', 'Mercury (planet)', '2001: A Space Odyssey', '',
          'S\u00e3o Paulo', '\u65e5\u672c:\u6771\u4eac', 'a/b', '1 &lt; 2', '&quot;x&quot;', 'Wikipedia:X:Y', 'x' * 300,
          'A;B', 'page', 'title', '\uff1a', 'C&amp;A', 'Main Page', 'Template:!',
          '\U0001f600', '\U0001f600:x', "O'Neill", "Talk:O'Neill's", '100%', '%s:%d', 'a\\b', '"x"', '*', '~', ' x ', ' : ', 'wikipedia', 'Talk',
          'talk:x', 'Portal', 'a&lt;/title&gt;b', 'x\u2028y', '-', '$1', '::', 'e\u0301', '\u02d0', '\u2236', 'User talk:X', 'http://a.b']
LINES = ['      <text xml:space="preserve">See [[File:x.png]] and [[Talk:y]]</text>', '      <id>1</id>', '',
         '&lt;page&gt;', '&lt;title&gt;x:y&lt;/title&gt;', '    <ns>0</ns>', '  ', 'a: b', '<page', '/page>',
         '&lt;/page&gt;', '    <revision>', '    </revision>', '\u2028x', 'x\ry', '\x0b\x0c\x85x', 'pages', '<pages>', 'title: x',
         '      <comment>/* a: b */</comment>', '<redirect title="A:B" />', '<Title>A:B</Title>', '<subtitle>A:B</subtitle>', 'x' * 20000,
         '\U0001f600 \U00010348', 'Talk:', "it's 100% \\o/ %s *bold*", '{{cite|url=http://a.b/c:d}}', '\x00', '\ufeff', '&lt;/title&gt;', ':']


def random_dump(rng):
    """Lines of a dump, each with whether it is kept."""
    lines = []
    counts = [0, 0]

    end = rng.choice(['\n', '\n', '\n', '\r\n', None])

    def add(line, keep):
        lines.append((line + (end or rng.choice(['\n', '\n', '\r\n'])), keep))
    for x in (['<mediawiki xml:lang="en">', '  <siteinfo>', '    <namespace key="1">Talk:</namespace>', '  </siteinfo>']
              if rng.random() < 0.7 else []):
        add(x, True)
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        title = rng.choice(TITLES)
        if rng.random() < 0.3:
            title = ''.join(rng.choice('ab :()') for _ in range(rng.randint(1, 6)))
        keep = ':' not in title
        counts[keep] += 1
        indent = rng.choice(['  ', '', '\t'])
        add(indent + '<page>', keep)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            add(rng.choice(['    <ns>0</ns>', '    <id>7</id>', '', '    <x>a:b</x>', '    <redirect title="%s" />' % rng.choice(TITLES),
                            '    <!-- %s -->' % rng.choice(['a', 'a:b', ':' * 300]), '    <restrictions>edit=sysop:move=sysop</restrictions>']), keep)
        add(indent + '  <title>%s</title>' % title, keep)
        for _ in range(rng.randint(0, 6)):
            add(rng.choice(LINES), keep)
        add(indent + '</page>', keep)
        for _ in range(rng.choice([0, 0, 0, 1])):
            add(rng.choice(['', '  <!-- a: b -->', '  ']), True)
    if rng.random() < 0.7:
        add('</mediawiki>', True)
    if lines and rng.random() < 0.2:
        # no line end at the end of the file
        lines[-1] = (lines[-1][0].rstrip('\n'), lines[-1][1])
    return lines, counts


def cut_off(lines, rng):
    """The dump ends somewhere before its end, as that of a download that broke off."""
    lines = lines[:rng.randint(1, len(lines))]
    if rng.random() < 0.5 and '<title>' not in lines[-1][0] and '<page>' not in lines[-1][0]:
        text, keep = lines[-1]
        lines[-1] = (text[:rng.randint(1, len(text))], keep)
    pages = [i for i, (text, _) in enumerate(lines) if '<page>' in text]
    if pages and not any('<title>' in text for text, _ in lines[pages[-1]:]):
        # its title, if it has a colon, is not in the dump
        for i in range(pages[-1], len(lines)):
            lines[i] = (lines[i][0], True)
        return lines, True
    return lines, False


@T02.kind('cut', 60, 1200, 'dumps that break off')
def t02_cut(rng, obs, params):
    with scratch() as d:
        for i in range(3):
            lines, counts = random_dump(rng)
            if not lines:
                continue
            lines, untitled = cut_off(lines, rng)
            obs.count('untitled', untitled)
            obs.count('cut')
            filtered(rng, obs, lines, counts, os.path.join(d, 'dump%d.xml' % i))


def filtered(rng, obs, lines, counts, path):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(''.join(x for x, _ in lines))
    old, old_argv = sys.stdout, sys.argv
    sys.stdout, sys.argv = out, _ = io.StringIO(), [script(), path]
    try:
        runpy.run_path(script(), run_name='__main__')
    except SystemExit as e:
        if e.code:
            raise Violation('the script ends with %r' % (e.code,))
    finally:
        sys.stdout, sys.argv = old, old_argv
    compare_dump(obs, lines, counts, out.getvalue())


def large_dump(rng):
    """Thousands of pages, or pages of thousands of lines, with long lines among them."""
    lines, counts = [], [0, 0]
    while len(lines) < 30000:
        ls, cs = random_dump(rng)
        if ls and not ls[-1][0].endswith('\n'):
            ls[-1] = (ls[-1][0] + '\n', ls[-1][1])
        lines += ls
        counts = [counts[0] + cs[0], counts[1] + cs[1]]
        if rng.random() < 0.02:
            long_title = rng.choice(['x', '\u00e9', 'a b ']) * rng.choice([300, 9000, 70000])
            colon = rng.random() < 0.5
            text = [rng.choice(LINES) for _ in range(rng.choice([10, 5000]))] + ['y' * rng.choice([9000, 66000, 140000])]
            rng.shuffle(text)
            lines += [(x + '\n', not colon) for x in ['  <page>', '    <title>%s%s</title>' % (long_title, ':x' if colon else '')]
                      + text + ['  </page>']]
            counts[not colon] += 1
    return lines, counts


@T02.kind('large', 2, 30, 'dumps of tens of thousands of lines')
def t02_large(rng, obs, params):
    with scratch() as d:
        lines, counts = large_dump(rng)
        path = os.path.join(d, 'dump.xml')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(''.join(x for x, _ in lines))
        old, old_argv = sys.stdout, sys.argv
        sys.stdout, sys.argv = out, _ = io.StringIO(), [script(), path]
        try:
            runpy.run_path(script(), run_name='__main__')
        except SystemExit as e:
            if e.code:
                raise Violation('the script ends with %r' % (e.code,))
        finally:
            sys.stdout, sys.argv = old, old_argv
        got, want = out.getvalue(), ''.join(x for x, keep in lines if keep)
        obs.log('%d lines, %d pages kept, %d dropped' % (len(lines), counts[1], counts[0]))
        obs.seen(len(want))
        obs.count('dumps')
        if got != want:
            at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation('the output of a dump of %d lines is different after %d characters: %r instead of %r' % (
                len(lines), at, got[at - 50:at + 50], want[at - 50:at + 50]))


def script():
    path = os.path.join(REPO, 'python', 'filter_wikidump.py')
    if not os.path.exists(path):
        raise HarnessError('%s is not there' % path)
    return path


@T02.kind('dumps', 400, 8000, 'dumps, filtered')
def t02(rng, obs, params):
    with scratch() as d:
        for i in range(3):
            lines, counts = random_dump(rng)
            filtered(rng, obs, lines, counts, os.path.join(d, 'dump%d.xml' % i))
    obs.sample = ''.join(x for x, _ in lines)


def compare_dump(obs, lines, counts, got):
    text = ''.join(x for x, _ in lines)
    want = ''.join(x for x, keep in lines if keep)
    obs.seen(text)
    obs.count('dumps')
    obs.count('pages_dropped', counts[0])
    obs.count('pages_kept', counts[1])
    if got != want:
        raise Violation('the output is not the input without the pages that have a colon in their title: got %r, '
                        'expected %r' % (got, want), text)


@T02.kind('script', 8, 60, 'the script in a process of its own')
def t02_script(rng, obs, params):
    with scratch() as d:
        lines, counts = random_dump(rng)
        path = os.path.join(d, 'dump.xml')
        with open(path, 'w', encoding='utf-8', newline='') as f:
            f.write(''.join(x for x, _ in lines))
        env = dict(os.environ, PYTHONIOENCODING='utf-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, script(), path], env=env, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
        if p.returncode != 0:
            raise Violation('the script ends with %r' % (p.returncode,), p.stderr[-1500:])
        if sorted(os.listdir(d)) != ['dump.xml']:
            raise Violation('the script leaves files: %r' % (os.listdir(d),))
        with open(path, encoding='utf-8', newline='') as f:
            if f.read() != ''.join(x for x, _ in lines):
                raise Violation('the script changes the dump')
        compare_dump(obs, lines, counts, p.stdout.decode('utf-8'))
        obs.count('script_runs')
