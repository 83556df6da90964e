"""Stand-ins for what the sandbox does not have (spaCy model, WordNet corpus, MySQL server), and the instrumentation
of SQLite connections. All of it is put in place before the code under test is imported, at the boundary of the
libraries it uses, so that it does not depend on how that code is written."""

import sqlite3


class SqlMonitor(object):
    """What is told about every statement, commit and fetch of the connections of the code under test."""

    def __init__(self):
        self.listener = None      # called with (kind, sql, 'before' | 'after')
        self.connections = []
        self.timeout = None
        self.record = False

    def event(self, kind, sql, when):
        if self.listener is not None:
            self.listener(kind, sql, when)


monitor = SqlMonitor()
_real_connect = sqlite3.connect


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        monitor.event('execute', sql, 'before')
        res = sqlite3.Cursor.execute(self, sql, *args)
        monitor.event('execute', sql, 'after')
        return res

    def executemany(self, sql, *args):
        monitor.event('execute', sql, 'before')
        res = sqlite3.Cursor.executemany(self, sql, *args)
        monitor.event('execute', sql, 'after')
        return res

    def executescript(self, sql):
        monitor.event('execute', sql, 'before')
        res = sqlite3.Cursor.executescript(self, sql)
        monitor.event('execute', sql, 'after')
        return res

    def fetchone(self):
        monitor.event('fetch', '', 'before')
        return sqlite3.Cursor.fetchone(self)

    def fetchall(self):
        monitor.event('fetch', '', 'before')
        return sqlite3.Cursor.fetchall(self)

    def __next__(self):
        monitor.event('fetch', '', 'before')
        return sqlite3.Cursor.__next__(self)


class Connection(sqlite3.Connection):
    def cursor(self, *args, **kwargs):
        if not args and 'factory' not in kwargs:
            kwargs['factory'] = Cursor
        return sqlite3.Connection.cursor(self, *args, **kwargs)

    def commit(self):
        monitor.event('commit', '', 'before')
        sqlite3.Connection.commit(self)
        monitor.event('commit', '', 'after')


def connect(*args, **kwargs):
    if 'factory' not in kwargs and len(args) < 6:
        kwargs['factory'] = Connection
    if monitor.timeout is not None and 'timeout' not in kwargs and len(args) < 2:
        kwargs['timeout'] = monitor.timeout
    conn = _real_connect(*args, **kwargs)
    if monitor.record:
        monitor.connections.append(conn)
    return conn


def install_sqlite():
    sqlite3.connect = connect
    sqlite3.dbapi2.connect = connect


# MySQL

class FakeMySQLServer(object):
    """A stand-in for a MySQL server: the statements of the generic SQL backend, run by SQLite, with the ways of MySQL
    that matter to its clients: %s parameters, autocommit, the row count of an UPDATE is that of the rows that changed,
    results are fetched on execute, DDL commits, transactions read from a snapshot, tables and columns that already exist are errors."""

    def __init__(self):
        self.paths = {}
        self.connections = []
        self.listener = None
        self.without_transactions = set()
        self.snapshots = False

    def connect(self, *args, **kwargs):
        names = ['host', 'user', 'passwd', 'db']
        kw = dict(zip(names, args))
        kw.update(kwargs)
        if 'password' in kw:
            kw['passwd'] = kw['password']
        if 'database' in kw:
            kw['db'] = kw['database']
        self.connections.append(kw)
        import _mysql_exceptions as exc
        if kw.get('db') not in self.paths:
            raise exc.OperationalError(1049, "Unknown database %r" % (kw.get('db'),))
        return FakeMySQLConnection(self, self.paths[kw['db']])


class FakeMySQLConnection(object):
    def __init__(self, server, path):
        self.server = server
        self.raw = _real_connect(path, isolation_level=None)
        # readers keep the snapshot of their transaction, as in REPEATABLE READ
        if server.snapshots:
            self.raw.execute('PRAGMA journal_mode=WAL')
        self.path = path
        self.auto = False
        self.in_txn = False
        self.savepoints = []
        self.serial = 0

    def autocommit(self, on):
        if on and self.in_txn:
            self.commit()
        self.auto = bool(on)

    def get_autocommit(self):
        return self.auto

    def cursor(self, *_):
        return FakeMySQLCursor(self)

    def begin(self):
        self.start()

    def start(self):
        if self.in_txn:
            self.commit()
        self.raw.execute('BEGIN')
        self.in_txn = True
        self.savepoints = []

    def commit(self):
        if self.in_txn:
            if self.server.listener:
                self.server.listener('commit', '', 'before')
            self.raw.execute('COMMIT')
            self.in_txn = False

    def rollback(self):
        if self.in_txn:
            # tables of other engines than InnoDB do not take part in transactions
            self.raw.execute('COMMIT' if self.path in self.server.without_transactions else 'ROLLBACK')
            self.in_txn = False

    def close(self):
        self.rollback()
        self.raw.close()


class FakeMySQLCursor(object):
    def __init__(self, conn):
        self.conn = conn
        self.rows = []
        self.pos = 0
        self.rowcount = -1
        self.description = None
        self.closed = False

    def execute(self, query, args=None):
        import re
        import _mysql_exceptions as exc
        if self.closed:
            raise exc.ProgrammingError(2014, 'cursor closed')
        conn = self.conn
        if conn.server.listener:
            conn.server.listener('execute', query, 'before')
        if args is not None:
            if not isinstance(args, (tuple, list)):
                args = (args,)
            # the driver does query % escaped arguments
            n = len(re.findall(r'(?<!%)%s', query))
            if n != len(args):
                raise exc.ProgrammingError('not all arguments converted during string formatting')
            if '?' in query:
                raise exc.ProgrammingError(1064, 'You have an error in your SQL syntax')
            query = query.replace('%s', '?').replace('%%', '%')
        else:
            args = ()
        q = query.strip().rstrip(';').strip()
        word = q.split()[0].upper()
        up = ' '.join(q.upper().split())
        if up in ('START TRANSACTION', 'BEGIN', 'BEGIN WORK'):
            conn.start()
            return 0
        if up in ('COMMIT', 'COMMIT WORK'):
            conn.commit()
            return 0
        if up in ('ROLLBACK', 'ROLLBACK WORK'):
            conn.rollback()
            return 0
        m = re.match(r'(SAVEPOINT|RELEASE SAVEPOINT|ROLLBACK TO SAVEPOINT|ROLLBACK TO|ROLLBACK WORK TO SAVEPOINT) (\w+)$', up)
        if m:
            self.savepoint(m.group(1), m.group(2))
            if conn.server.listener:
                conn.server.listener('execute', query, 'after')
            return 0
        if word not in ('SELECT', 'INSERT', 'UPDATE', 'DELETE', 'CREATE', 'ALTER', 'DROP', 'TRUNCATE') or \
                re.match(r'INSERT OR |UPDATE OR ', up):
            raise exc.ProgrammingError(1064, 'You have an error in your SQL syntax: %s' % q)
        if word in ('CREATE', 'ALTER', 'DROP', 'TRUNCATE'):
            conn.commit()
            engine = re.search(r'\sENGINE\s*=\s*(\w+)', q, flags=re.I)
            if engine and engine.group(1).upper() != 'INNODB':
                conn.server.without_transactions.add(conn.path)
            q = re.sub(r'\s+ENGINE\s*=.*$', '', q, flags=re.I | re.S)
            q = re.sub(r'PRIMARY KEY\s*\(\s*(\w+)\s*\(\d+\)\s*\)', r'PRIMARY KEY (\1)', q, flags=re.I)
            # the ranges of the types hold, as in strict mode
            q = re.sub(r'(\w+)\s+VARCHAR\((\d+)\)', r'\1 TEXT CHECK (length(\1) <= \2)', q, flags=re.I)
            for kind, bits in (('TINYINT', 8), ('SMALLINT', 16), ('MEDIUMINT', 24), ('INTEGER', 32), ('INT', 32)):
                q = re.sub(r'(\w+)\s+%s\b(?:\(\d+\))?(\s+UNSIGNED)?' % kind, lambda m: (
                    '%s NUMERIC CHECK (%s BETWEEN %d AND %d)' % (
                        (m.group(1), m.group(1)) + ((0, 2 ** bits - 1) if m.group(2) else
                                                    (-2 ** (bits - 1), 2 ** (bits - 1) - 1)))), q, flags=re.I)
            q = re.sub(r'^TRUNCATE( TABLE)?', 'DELETE FROM', q, flags=re.I)
        elif not conn.auto and not conn.in_txn:
            conn.start()
        q = re.sub(r'^INSERT IGNORE INTO', 'INSERT OR IGNORE INTO', q, flags=re.I)
        try:
            changed = None
            if word == 'UPDATE':
                m = re.match(r'UPDATE\s+(\w+)\s+SET\s+(.*?)\s+WHERE\s+(.*)$', q, flags=re.I | re.S)
                if m:
                    before = self.where(m, args)
            cur = conn.raw.execute(q, tuple(args))
            self.rows = cur.fetchall()
            self.pos = 0
            self.description = cur.description
            self.rowcount = len(self.rows) if word == 'SELECT' else cur.rowcount
            if word == 'UPDATE' and m:
                after = self.where(m, args)
                changed = len([r for r, s in zip(before, after) if r != s])
                self.rowcount = changed
        except sqlite3.OperationalError as e:
            raise exc.OperationalError(1064, str(e))
        except sqlite3.IntegrityError as e:
            if 'CHECK' in str(e):
                raise exc.DataError(1264, 'Out of range value or data too long: %s' % e)
            raise exc.IntegrityError(1062, str(e))
        except sqlite3.Error as e:
            raise exc.ProgrammingError(1064, str(e))
        if conn.server.listener:
            conn.server.listener('execute', query, 'after')
        return self.rowcount

    def savepoint(self, what, name):
        """Only inside of transactions; one of the same name replaces the one before."""
        import _mysql_exceptions as exc
        conn = self.conn
        if what == 'SAVEPOINT':
            if conn.in_txn:
                conn.savepoints = [s for s in conn.savepoints if s[0] != name]
                conn.serial += 1
                conn.raw.execute('SAVEPOINT sp%d' % conn.serial)
                conn.savepoints.append((name, 'sp%d' % conn.serial))
            return
        names = [s[0] for s in conn.savepoints]
        if not conn.in_txn or name not in names:
            raise exc.OperationalError(1305, 'SAVEPOINT %s does not exist' % name)
        i = names.index(name)
        if what == 'RELEASE SAVEPOINT':
            conn.raw.execute('RELEASE %s' % conn.savepoints[i][1])
            del conn.savepoints[i:]
        else:
            if conn.path not in conn.server.without_transactions:
                conn.raw.execute('ROLLBACK TO %s' % conn.savepoints[i][1])
            del conn.savepoints[i + 1:]

    def where(self, m, args):
        n = m.group(3).count('?')
        wargs = tuple(args)[len(args) - n:] if n else ()
        return self.conn.raw.execute('SELECT * FROM %s WHERE %s ORDER BY rowid' % (m.group(1), m.group(3)),
                                     wargs).fetchall()

    def executemany(self, query, seq):
        n = 0
        for args in seq:
            n += self.execute(query, args)
        self.rowcount = n
        return n

    def fetchone(self):
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchall(self):
        res = tuple(self.rows[self.pos:])
        self.pos = len(self.rows)
        return res

    def fetchmany(self, size=1):
        res = tuple(self.rows[self.pos:self.pos + size])
        self.pos += len(res)
        return res

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        self.closed = True


mysql_server = FakeMySQLServer()


def install_mysql():
    import MySQLdb
    MySQLdb.connect = mysql_server.connect
    MySQLdb.Connect = mysql_server.connect
    MySQLdb.Connection = mysql_server.connect


# spaCy

class FakeSpacy(object):
    """A stand-in for the language model: real spaCy documents, built from the annotations that a case gives."""

    def __init__(self):
        self.texts = {}      # text -> list of sentences, each a list of annotated words (see semref.Word)
        self.loads = 0
        self.parsed = []     # documents that were made
        self.pieces = False  # of a text that is not known: the sentences whose words are all in it

    def load(self, *_, **__):
        self.loads += 1
        return self

    def vocab(self):
        import spacy
        if not hasattr(self, '_vocab'):
            self._vocab = spacy.blank('en').vocab
            self._vocab.lookups.add_table('lexeme_prob', {})
        return self._vocab

    def __call__(self, text, *_, **__):
        sentences = self.texts.get(text)
        if sentences is None:
            sentences = dict((' '.join(k.split()), v) for k, v in self.texts.items()).get(' '.join(text.split()))
        if sentences is None and self.pieces:
            there = set(text.split())
            sentences = [s for k, v in self.texts.items() for s in v if all(w.word in there for w in s)]
        if sentences is None:
            from gbmon.core import HarnessError
            raise HarnessError('no annotations for %r' % (text,))
        doc = self.document(sentences)
        doc.user_data['text'] = text
        self.parsed.append(doc)
        return doc

    def document(self, sentences):
        from spacy.tokens import Doc
        vocab = self.vocab()
        words = [w for s in sentences for w in s]
        index = dict((id(w), i) for i, w in enumerate(words))
        ents = []
        for i, w in enumerate(words):
            if not w.ent:
                ents.append('O')
            elif i and words[i - 1].ent == w.ent:
                ents.append('I-' + w.ent)
            else:
                ents.append('B-' + w.ent)
        for w in words:
            if getattr(w, 'prob', None) is not None:
                vocab[w.word].prob = w.prob
        return Doc(vocab, words=[w.word for w in words], spaces=[True] * len(words), pos=[w.pos for w in words],
                   deps=[w.dep for w in words], heads=[index[id(w.head)] for w in words],
                   lemmas=[w.lemma for w in words], ents=ents)

    def pipe(self, texts, *_, **__):
        return (self(t) for t in texts)


fake_spacy = FakeSpacy()


def install_spacy():
    import spacy
    spacy.load = fake_spacy.load


# WordNet

class FakeLemma(object):
    def __init__(self, name, synset):
        self._name = name
        self._synset = synset
        self.links = {}

    def name(self):
        return self._name

    def synset(self):
        return self._synset

    def count(self):
        return 1

    def key(self):
        return '%s%%%s' % (self._name, self._synset.name())

    def __repr__(self):
        return 'Lemma(%s.%s)' % (self._synset.name(), self._name)


class FakeSynset(object):
    def __init__(self, name, pos):
        self._name = name
        self._pos = pos
        self._lemmas = []
        self.links = {}

    def name(self):
        return self._name

    def pos(self):
        return self._pos

    def lemmas(self, *_, **__):
        return list(self._lemmas)

    def lemma_names(self, *_, **__):
        return [x.name() for x in self._lemmas]

    def definition(self, *_, **__):
        return 'definition'

    def examples(self, *_, **__):
        return []

    def lexname(self):
        return 'noun.all'

    def offset(self):
        return 1

    def __repr__(self):
        return 'Synset(%s)' % self._name


SYNSET_LINKS = ['hypernyms', 'instance_hypernyms', 'hyponyms', 'instance_hyponyms', 'member_holonyms',
                'substance_holonyms', 'part_holonyms', 'member_meronyms', 'substance_meronyms', 'part_meronyms',
                'attributes', 'entailments', 'causes', 'also_sees', 'verb_groups', 'similar_tos', 'topic_domains',
                'region_domains', 'usage_domains']
LEMMA_LINKS = ['antonyms', 'pertainyms', 'derivationally_related_forms', 'hypernyms', 'hyponyms', 'also_sees',
               'verb_groups', 'similar_tos', 'topic_domains', 'region_domains', 'usage_domains']


def _link(cls, name):
    setattr(cls, name, lambda self: list(self.links.get(name, [])))


for _name in SYNSET_LINKS:
    _link(FakeSynset, _name)
for _name in LEMMA_LINKS:
    _link(FakeLemma, _name)


class FakeWordNet(object):
    """A stand-in for the corpus: the synsets that a case gives."""

    def __init__(self):
        self.all = []

    def all_synsets(self, pos=None, *_, **__):
        return (s for s in self.all if pos is None or s.pos() == pos)

    def synset(self, name):
        return [s for s in self.all if s.name() == name][0]

    def synsets(self, lemma, *_, **__):
        return [s for s in self.all if lemma in s.lemma_names()]

    def ensure_loaded(self):
        pass


fake_wordnet = FakeWordNet()


def install_wordnet():
    import nltk.corpus
    nltk.corpus.wordnet = fake_wordnet


def install():
    install_sqlite()
    install_mysql()


def install_language():
    """For the checks that need them: importing spaCy takes a while."""
    install_spacy()


def install_corpus():
    install_wordnet()
