"""The properties, and what the manifest says of their checks. `python tools/properties.py` writes
properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SQL = 'gb/hypergraph/sql.py'
HG = 'gb/hypergraph/hypergraph.py'
EDGE = 'gb/hypergraph/edge.py'
SYM = 'gb/hypergraph/symbol.py'
LITE = 'gb/hypergraph/sqlite.py'
MY = 'gb/hypergraph/mysql.py'
BATCH = 'gb/hypergraph/batch_hypergraph.py'
TREE = 'gb/knowledge/semantic_tree.py'
STAGES = 'gb/knowledge/stages/'

DOMAIN = (' Edges: non-empty sequences of valid symbols (non-empty, no whitespace, not beginning with a parenthesis, '
          'balanced parentheses, not looking like a number), integers, finite floats and edges.')

P = []


def prop(pid, title, statement, over, text, tests, files, mechanism, observe, technique, note,
         level='exploration', state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level, state=state))


HIST_NOTE = ('Seeded random histories compared at every step with an independent reference model; what was observed is '
             'counted. Assurance is that of the histories explored. Trusts the model (gbmon/model.py) and SQLite.')

prop('H01', 'An edge is in the hypergraph exactly if it was added and not removed since',
     'After any sequence of additions, removals, collections, batches, removals by pattern, beliefs, retractions, '
     'destructions and reopenings, an edge exists if and only if the last operation about exactly that edge (same '
     'elements, same order, same nesting, same types) added it. Adding what is there and removing what is not change '
     'nothing, and no other edge (a permutation, a prefix, an extension, a sub-edge) is affected.',
     ['histories', 'inputs'],
     'Every history of operations over every set of edges.' + DOMAIN,
     'The tests add and remove three fixed edges of plain symbols; they never permute elements, mix types that print '
     'alike, nest deeply or interleave removals of edges that share elements.',
     [SQL, HG, EDGE],
     [('all permutations of an edge are written and removed', SQL + ':do_with_edge_permutations'),
      ('membership is a pattern query without wildcards', SQL + ':exists')],
     ['exists()'], 'online monitor of histories against a reference model', HIST_NOTE,
     state=[('perms', 'one row for each permutation of each edge', SQL)])

prop('H02', 'A pattern query returns exactly the stored edges that match it',
     'A pattern query returns the set of all the stored edges with the length of the pattern and, at each position '
     'that is not a wildcard, an element that is the same (the integer 7, the float 7.0 and symbols are all '
     'different, and nested edges may be given as lists or tuples), and nothing else. It holds for every choice of '
     'wildcards, all and none included, and whatever the characters of the symbols.',
     ['histories', 'inputs'],
     'Every stored set of edges, reached by any history, and every pattern.' + DOMAIN,
     'The tests query six patterns over three edges of plain symbols: prefixes of symbols, numbers, nested first or '
     'last elements and other wildcard positions are never queried.',
     [SQL, EDGE],
     [('range scan over permutations, then a filter', SQL + ':pattern2edges'),
      ('end of the range', SQL + ':str_plus_1'), ('permutations are undone', SQL + ':unpermutate')],
     ['pattern2edges()'], 'online monitor of histories against a reference model', HIST_NOTE)

prop('H03', 'The star of an entity is exactly the set of stored edges that contain it',
     'The star of an atom or an edge is the set of all the stored edges that have it as a direct element, at any '
     'position, and nothing else: not edges with symbols that begin alike, nor edges that only contain it deeper '
     'inside. Unknown entities have an empty star.',
     ['histories', 'inputs'],
     'Every stored set of edges, reached by any history, and every entity.' + DOMAIN,
     'The tests ask for the stars of three symbols of one edge.',
     [SQL, EDGE],
     [('range scan over the permutations that begin with the entity', SQL + ':str2perms')],
     ['star()'], 'online monitor of histories against a reference model', HIST_NOTE)

prop('H04', 'The degree of an entity is the number of its occurrences in stored edges',
     'The degree of an atom or an edge is the number of positions of stored edges at which it is a direct element, '
     'and 0 if there is none or it is unknown. Repeated additions, removals of absent edges, and removals of the '
     'edge itself do not make it drift.',
     ['histories', 'inputs'],
     'Every history of operations over every set of edges.' + DOMAIN,
     'The tests check degrees of four symbols after one addition and one removal.',
     [SQL],
     [('degrees are counted up and down for each element', SQL + ':add_raw'),
      ('an edge that still has a degree stays as a vertex', SQL + ':remove_raw')],
     ['degree()'], 'online monitor of histories against a reference model', HIST_NOTE,
     state=[('vertices.degree', 'occurrences in stored edges', SQL)])

prop('H05', 'A timestamp is that of the addition that introduced the entity',
     'A stored edge has the timestamp given when it was (last) added, adding it again while it is there does not '
     'change it, and an element has the timestamp of the addition that made it known, whatever is added or removed '
     'later. What is unknown, and what was added without a timestamp, has -1.',
     ['histories', 'inputs'],
     'Every history of additions and removals with any timestamps (not specified for an edge that was removed while '
     'it is still an element of others).' + DOMAIN,
     'The tests check the timestamps of one edge and its elements once.',
     [SQL],
     [('vertices are created by the first addition', SQL + ':add_raw')],
     ['timestamp()'], 'online monitor of histories against a reference model', HIST_NOTE,
     state=[('vertices.timestamp', 'when the vertex was added', SQL)])

prop('H06', 'Looking up a root gives exactly the stored symbols with that root',
     'The symbols with a given root are all the symbols "root/namespace" that are direct elements of stored edges '
     'and have exactly that root, each in full, and no others: not symbols whose root only begins like it, roots '
     'alone, or symbols of removed edges.',
     ['histories', 'inputs'],
     'Every stored set of edges, reached by any history, and every root.' + DOMAIN,
     'The tests look up two roots in three edges.',
     [SQL, SYM],
     [('range scan over the permutations that begin with the root', SQL + ':symbols_with_root')],
     ['symbols_with_root()'], 'online monitor of histories against a reference model', HIST_NOTE)

prop('H07', 'A full traversal visits every vertex once, whatever the callback does with it',
     'A traversal applies the function to every vertex (every stored edge and every direct element of one, as it '
     'was added, with its degree) exactly once. It is lazy, can be abandoned, can be used inside a batch, and the '
     'function may query the hypergraph while it is under way.',
     ['histories', 'inputs'],
     'Every stored set of edges, and every interleaving of the traversal with queries.' + DOMAIN,
     'The test compares the labels of one edge and its elements, with a callback that does nothing else.',
     [SQL, EDGE],
     [('own cursor, rows read back from their text', SQL + ':f_all')],
     ['f_all()'], 'online monitor of histories against a reference model', HIST_NOTE)

prop('H08', 'Removing by pattern removes exactly the edges that match',
     'After a removal by pattern no stored edge matches the pattern and every other edge is still stored, with '
     'degrees as if each matching edge had been removed by itself. It also holds for edges that begin with edges.',
     ['histories', 'inputs'],
     'Every stored set of edges and every pattern.' + DOMAIN,
     'The test removes by one pattern from three edges.',
     [HG, SQL],
     [('matching edges are removed one at a time, in one batch', HG + ':remove_by_pattern')],
     ['remove_by_pattern()', 'pattern2edges()', 'exists()', 'degree()'],
     'online monitor of histories against a reference model', HIST_NOTE)

prop('H09', 'Collections and batches are the same as their operations one by one',
     'Adding or removing several edges at once, and running functions as a batch, have the same observable result '
     'as the same operations one by one in the same order, however they are grouped. Each function of a batch gets '
     'the hypergraph and its reads see what was written before in the batch, after which everything is committed.',
     ['histories', 'inputs', 'programs'],
     'Every sequence of operations, every way to group it, and batches with any mixture of reads and writes.' + DOMAIN,
     'The tests run one batch of two additions.',
     [HG, SQL],
     [('one cursor and transaction for a batch', SQL + ':transaction'), ('', HG + ':batch_exec')],
     ['batch_exec()', 'add()', 'remove()', 'all the queries'],
     'differential monitor: two groupings of one history, and a reference model', HIST_NOTE)

prop('H10', 'An operation that fails leaves no trace, and the handle goes on working',
     'When an addition, a removal (also by pattern), a belief, a retraction, a collection, a batch or a destruction raises (an error '
     'of the database at any statement or at the commit, a lock, an interrupt, an invalid edge, an exception of a '
     'function of the batch), everything that can be observed is exactly as before it, from this handle and from '
     'others, and also within a batch that goes on after it. The same handle can then go on, and repeating the '
     'operation gives what it would have given.',
     ['fault_sequences', 'histories'],
     'Every state reached by a history, every operation, and every point at which it can fail.',
     'No test makes anything fail.',
     [SQL, LITE, HG],
     [('commit at the end, rollback on any exception', SQL + ':transaction')],
     ['exceptions', 'all the queries, on two handles'],
     'fault injection at every database call, state audited after each',
     'Every statement, fetch and commit of each sampled operation fails once before and once after it takes effect; '
     'states and operations are sampled. Assumes that a rollback itself does not fail.',
     level='fault_enumeration')

prop('H11', 'A crash at any point leaves a state between two operations',
     'If the process is killed, or power is lost, at any point, the database opens again and shows the state before '
     'or after the operation that was under way (never part of an edge, a collection, a removal by pattern or a batch), with every '
     'operation that had returned still there.',
     ['crash_points', 'histories'],
     'Every history, every operation under way, every operation on files at which it is cut, and every part of the '
     'unsynced writes that may be lost.',
     'No test crashes anything, or opens a database again.',
     [SQL, LITE],
     [('one transaction for each operation', SQL + ':transaction'), ('journal of SQLite', LITE)],
     ['all the queries, in a new process'],
     'crash injection at every file operation, and power losses from recorded writes, audited on recovery',
     'Every write, sync, truncation and unlink of each sampled operation is a crash point; states and operations '
     'are sampled. Assumes that metadata operations of the file system are ordered.',
     level='fault_enumeration')

prop('H12', 'What an operation did is there for every other handle, process and later time',
     'When an operation has returned, its effect is there for handles opened before and after it, in this and other '
     'processes, after reopening, and even if the process is killed without closing. A batch under way is not '
     'visible to others until it ends, and databases made by earlier versions open with all their content.',
     ['histories', 'configurations', 'crash_points'],
     'Every history spread over any number of handles and processes on one database file, and databases with older '
     'tables.',
     'The tests use one handle on one new database.',
     [LITE, SQL],
     [('commit before returning', SQL + ':transaction'), ('tables and columns are added if missing', LITE + ':create_tables')],
     ['all the queries, on several handles and in new processes'],
     'monitors on several handles and processes, against one reference model', HIST_NOTE)

prop('H13', 'Concurrent processes on one database behave as if one at a time',
     'When several processes add, remove, run batches and query on one database at the same time, every operation '
     'that returns takes effect at one instant between its call and its return; none is lost, half of a batch is '
     'never seen, and degrees end up consistent with the edges. An operation that finds the database busy waits for '
     'it; if it stays busy for long it may fail because of the lock, and then it has no partial effect.',
     ['schedules', 'histories'],
     'Every interleaving of any number of processes with overlapping edges.',
     'No test has two processes, or two handles.',
     [SQL, LITE],
     [('writes take the lock before they read', LITE + ':begin'), ('', SQL + ':transaction')],
     ['recorded calls and returns', 'all the queries at the end'],
     'linearizability checker over recorded histories of stressed processes',
     'The history of calls and returns of each edge is checked for linearizability (Wing-Gong) offline, with delays '
     'injected between statements. Interleavings are sampled and counted.')

prop('H14', 'Destroying leaves an empty hypergraph that works like a new one',
     'After it is destroyed a hypergraph has no edges, vertices, symbols, degrees or timestamps, also for other '
     'handles and after reopening. It can be filled again and behaves like a new one.',
     ['histories'],
     'Every history before and after the destruction.',
     'The test suite destroys to clean up, and only looks at one edge afterwards.',
     [SQL, HG],
     [('both tables are emptied in one transaction', SQL + ':destroy')],
     ['destroy()', 'all the queries'], 'online monitor of histories against a reference model', HIST_NOTE)

prop('H15', 'The MySQL backend gives the same answers as SQLite',
     'For any history, a hypergraph on MySQL gives the same answers to every query as one on SQLite; batches and '
     'operations that fail leave no trace, and what was written is there for new connections. Statements and '
     'parameters are valid for the MySQL driver.',
     ['histories', 'fault_sequences', 'configurations'],
     'Every history of operations, with reconnections and failures.',
     'The tests never use the MySQL backend: there is no server.',
     [MY, SQL],
     [('the generic SQL backend, with other placeholders', MY), ('no reliance on counts of changed rows', SQL + ':update_or_insert')],
     ['all the queries'], 'online monitor against the reference model, over a stand-in for the server',
     'There is no MySQL server in the sandbox: the driver is replaced by a stand-in with its interface (parameter '
     'style, autocommit, row counts, buffered results), so collation, key prefixes and isolation are not judged.')

prop('H16', 'The null backend accepts everything and stays empty',
     'On the null backend every operation of the interface can be called in any order without an error, additions '
     'return what they were given, and every query answers as an empty hypergraph.',
     ['histories', 'inputs'],
     'Every history of operations.',
     'No test uses it with more than the extractor.',
     ['gb/hypergraph/null.py', 'gb/hypergraph/backend.py', HG],
     [('', 'gb/hypergraph/null.py')],
     ['all the operations'], 'online monitor of histories against an empty model', HIST_NOTE)

prop('H17', 'The work of an operation does not grow with the rest of the hypergraph',
     'Asking whether an edge exists, for a degree or a timestamp, adding, removing, stating and retracting an edge takes '
     'the same work (up to a constant) however many other edges there are, even around the same entities. The work of '
     'a star or a pattern query depends on the edges that have all the elements that are asked for, and that of looking '
     'up a root on the edges with symbols of that root, and not on any others, now or before. A handle can be used '
     'forever: no operation leaves cursors, files or transactions open.',
     ['histories', 'inputs'],
     'Every hypergraph, every operation, and every set of other edges.' + DOMAIN,
     'The tests have three edges and never look at what an operation costs.',
     [SQL, LITE, HG],
     [('all permutations are stored so that every lookup is a range of an index', SQL + ':str2perms'),
      ('the range of a pattern begins with all its elements', SQL + ':pattern2edges'),
      ('counters of degrees', SQL + ':inc_degree')],
     ['SQLite instructions', 'function calls', 'open files and transactions'],
     'monitor of the work done: instructions of the SQLite virtual machine and function calls, compared across '
     'hypergraphs that only differ in what is unrelated',
     'Seeded random pairs of hypergraphs. Counts, not times: the result does not depend on the machine.')

prop('H18', 'The ego network has the edges within the given number of steps',
     'The ego network of an entity at depth 1 is its star; at depth n it also has the ego networks at depth n-1 of '
     'all the elements, but the first (the type of the edge), of the edges of the star. At depth 0 or less, and for '
     'unknown entities, it is empty.',
     ['inputs', 'histories'],
     'Every hypergraph (cycles, hubs and nested edges included), center and depth, without numbers of both types with '
     'the same value (7 and 7.0), of which a Python set has one.',
     'The test asks for one center at two depths in a hypergraph of three edges.',
     [HG],
     [('recursion over the elements of the star', HG + ':ego')],
     ['ego()'], 'differential monitor against an independent reference', HIST_NOTE)

prop('H19', 'The intersection of seeds has exactly the edges on the walks between them',
     'The intersection of seeds has exactly the edges, of those within two steps of a seed, whose elements but the '
     'first (the type) are all on a walk from the first seed to all the others, where a walk goes from one element '
     'of an edge to another one and each of its steps but the seeds is on no shorter walk. Edges with an element '
     'whose degree is more than 250 (a hub) are left out; seeds that are unknown or not connected are no error.',
     ['inputs'],
     'Every hypergraph and every sequence of seeds.',
     'The tests check one set of seeds in one hypergraph.',
     ['gb/hypergraph/queries.py'],
     [('walks and their lengths', 'gb/hypergraph/queries.py:walks'), ('', 'gb/hypergraph/queries.py:valid_walk')],
     ['intersect()'], 'differential monitor against an independent reference', HIST_NOTE)

prop('H20', 'A buffered hypergraph ends up as an unbuffered one',
     'Once flushed, a hypergraph that was changed through a buffer (additions, beliefs, removals, retractions, batches, '
     'destruction) is as if each operation had been made without it, in the same order and with its own timestamp; '
     'flushing without anything waiting does nothing. Never more edges wait than the limit, a flush that fails and is '
     'repeated loses and duplicates nothing, and a batch that fails takes back what it added, and nothing else.',
     ['histories', 'fault_sequences', 'configurations'],
     'Every sequence of operations through the buffer, limit of the buffer, and moments of the flushes.',
     'The tests add a few edges with one limit and flush once.',
     [BATCH, HG],
     [('edges wait with their timestamps', BATCH + ':add'), ('', BATCH + ':flush'), ('', BATCH + ':remove'), ('', BATCH + ':batch_exec')],
     ['flush()', 'all the queries on the hypergraph behind'], 'differential monitor against the reference model', HIST_NOTE)

prop('H21', 'Asking changes nothing, and what is given and returned is not shared',
     'No question (existence, pattern, star, degree, timestamp, root, sources, ego network, traversal, also inside of '
     'a batch) writes to the database or leaves a transaction open, and asking again gives the same. No operation '
     'changes the edges, patterns, collections or functions that it is given, and an addition returns the edges that '
     'it was given; what the caller does with them afterwards, with the answers, or with the maps that a traversal '
     'passes to the function, changes neither what is stored, nor what waits in a buffer, nor other answers.',
     ['histories', 'inputs'],
     'Every history, question and argument, made of lists or tuples.' + DOMAIN,
     'The tests pass literals, never look at the database file, and never use an argument or an answer again.',
     [SQL, HG, BATCH],
     [('answers are made anew for each query', SQL + ':cur2edges'), ('the buffer keeps copies', BATCH + ':add'),
      ('queries only select', SQL + ':pattern2edges')],
     ['bytes of the database file', 'arguments', 'answers'],
     'monitor of side effects: bytes of the database, row changes and arguments before and after, with hostile callers',
     HIST_NOTE)

prop('H22', 'Between two calls a handle keeps nothing',
     'Whenever no operation, question or traversal of a handle is under way, also after one that failed or a traversal '
     'that was closed before its end, the handle has no lock on the database (another process can get it for itself at '
     'once), no transaction, and no further file open; dropping the handle closes the database; and repeating the same '
     'calls does not use up more and more memory.',
     ['histories', 'fault_sequences'],
     'Every history, with failures at any point.' + DOMAIN,
     'The tests use one handle, whose calls all succeed, and never look at the locks of the database.',
     [SQL, LITE],
     [('cursors are closed', SQL + ':close_cursor'), ('what failed is rolled back', SQL + ':transaction'),
      ('cursor of a traversal', SQL + ':f_all')],
     ['locks of the database file', 'open files of the process', 'objects in memory'],
     'monitor of locks, files and memory after every call, with failing calls and abandoned traversals',
     HIST_NOTE)

prop('H23', 'Hypergraphs that are not the same do not influence each other',
     'Operations, questions, batches, failures and traversals of a hypergraph have no effect on any other hypergraph '
     'that is open in the same process, on the same backend or another, also when they are nested in a batch or a '
     'traversal of the other one, or done by another thread. Threads with handles of their own on one database only '
     'have in common what is stored.',
     ['histories', 'schedules', 'configurations'],
     'Every interleaving of histories of several hypergraphs.' + DOMAIN,
     'The tests have one hypergraph at a time, in one thread.',
     [SQL, BATCH, HG, LITE, MY],
     [('each backend has its own connection and cursor', SQL + ':open_cursor'), ('', BATCH + ':flush')],
     ['all the queries on each hypergraph'],
     'online monitors of several hypergraphs at once, interleaved, nested, and in threads with forced switches',
     HIST_NOTE)

prop('H24', 'The same history gives the same answers in every process',
     'What operations leave and questions answer, what texts and symbols become, and what is extracted from a parse '
     'depends on nothing but what was given: not on the hash seed, the optimization level, the locale, time zone or '
     'working directory of the process, on the thread, or on what the process did before. A database that one '
     'process has written gives the same answers in every other one.',
     ['histories', 'configurations'],
     'Every history of operations, texts and parses, in every pair of environments.' + DOMAIN,
     'The tests run in one process with one environment, and never look at what another process has written.',
     [SQL, LITE, HG, SYM, 'gb/hypergraph/queries.py', STAGES + 'delta.py', 'gb/readers/wordnet.py'],
     [('sets are gone through in the order of their hashes', HG + ':ego'), ('', SYM + ':hashed'),
      ('the database is named by a path', LITE + ':SQLite')],
     ['all the queries', 'edge2str()', 'str2symbol()', 'hashed()', 'read_text()'],
     'differential monitoring of processes in different environments',
     'The same seeded histories are run by several processes and their answers compared. Assurance is that of the '
     'histories and environments explored, with one version of Python and SQLite.')

prop('B01', 'A belief is a fact with its sources',
     'After a belief is added the fact is stored, linked to its source; the sources of a fact are exactly those that '
     'stated it and did not retract it, each once, however beliefs are added (one, several at once, repeated, with '
     'timestamps). A fact has no source because of other facts that contain it or look like it.',
     ['histories', 'inputs'],
     'Every history of beliefs, retractions and ordinary additions; sources can be atoms, numbers or edges.' + DOMAIN,
     'The tests have two sources and one fact.',
     [HG, 'gb/hypergraph/constants.py'],
     [('fact and link are added together', HG + ':add_belief'), ('', HG + ':sources')],
     ['sources()', 'exists()', 'timestamp()'], 'online monitor of histories against a reference model', HIST_NOTE)

prop('B02', 'A fact is retracted with its last source, and not before',
     'Retracting the belief of a source removes its link to the fact, and the fact itself exactly if no source is '
     'left; other facts, other links and degrees are as before. The two happen together or not at all.',
     ['histories', 'inputs'],
     'Every history of beliefs and retractions, also of sources that never stated the fact.' + DOMAIN,
     'The tests retract two beliefs of one fact.',
     [HG],
     [('link and fact are removed in one batch', HG + ':remove_belief')],
     ['sources()', 'exists()', 'degree()'], 'online monitor of histories against a reference model', HIST_NOTE)

S_NOTE = ('Seeded random and systematically enumerated values, each judged by an independent implementation. Assurance is '
          'that of the values explored. Trusts the reference in the check.')

prop('S01', 'An edge written as text reads back as the same edge',
     'Writing any edge as text and reading it gives the same edge: same nesting, order, values and types (symbols, '
     'integers, floats of any magnitude). The text does not depend on whether nested edges are lists or tuples, and '
     'other whitespace between the elements, or missing outer parentheses, read the same. Other threads that do so at '
     'the same time make no difference.',
     ['inputs'],
     'Every edge.' + DOMAIN,
     'The tests write and read a few edges with plain symbols and small numbers.',
     [EDGE],
     [('', EDGE + ':edge2str'), ('', EDGE + ':str2edge')],
     ['edge2str()', 'str2edge()'], 'round-trip and differential monitor', S_NOTE)

prop('S02', 'Text splits into elements, and tokens are typed, by one unambiguous grammar',
     'The text of an edge is split exactly at the whitespace that is not inside parentheses, and parentheses belong '
     'to the element they are in. A token is an integer if it is digits with an optional minus sign before, a float if '
     'there is also one decimal point, and otherwise a symbol; numbers have their value.',
     ['inputs'],
     'Every token without whitespace, and every text of nested elements with any whitespace.',
     'The tests split six texts and type a few tokens.',
     [EDGE],
     [('', EDGE + ':split_edge_str'), ('', EDGE + ':token_type'), ('', EDGE + ':parsed_token')],
     ['split_edge_str()', 'token_type()', 'parsed_token()', 'str2edge()'],
     'exhaustive enumeration of short tokens and random texts, against a grammar', S_NOTE)

prop('S03', 'Negation is an involution that changes nothing but the sign',
     'Negating a symbol, or an edge (by its first element, or the first one of that one), switches whether it is negative, and doing it twice '
     'gives the original back. Nothing else of the edge changes, the argument stays as it was, and the negated edge '
     'is a different one for the text form and for a hypergraph.',
     ['inputs'],
     'Every symbol and edge (symbols that do not begin with two negation marks, and are not one; what an edge begins '
     'with, at the bottom of nested edges, is a symbol).' + DOMAIN,
     'The tests negate one symbol and one edge.',
     [EDGE, SYM],
     [('', EDGE + ':negative'), ('', SYM + ':negative')],
     ['is_negative()', 'negative()'], 'algebraic monitor over random edges', S_NOTE)

prop('S04', 'The anatomy of symbols agrees with their text',
     'Type (concept, URL, edge, integer, float), parts, root, namespace and whether a symbol is a root are those of '
     'its text: a URL is one part, other symbols split at slashes, the root is the first part and the namespace the '
     'second one, if there is one. Building a symbol from its parts gives it back.',
     ['inputs'],
     'Every symbol, number, URL and edge.',
     'The tests take ten symbols apart.',
     [SYM],
     [('', SYM + ':parts'), ('', SYM + ':sym_type'), ('', SYM + ':build')],
     ['sym_type()', 'parts()', 'root()', 'nspace()', 'is_root()', 'build()'],
     'differential monitor over random symbols', S_NOTE)

prop('S05', 'Any text becomes a valid symbol that keeps the text readable',
     'Making a symbol of a text gives a lower case symbol without whitespace, slashes or parentheses, so that it is '
     'a root and survives in the text of an edge; each of those characters becomes an underscore and every other one '
     'is kept. Doing it again changes nothing, and reading the symbol back gives the text with spaces for '
     'underscores.',
     ['inputs'],
     'Every non-empty text that does not look like a number.',
     'The tests convert two texts.',
     [SYM],
     [('', SYM + ':str2symbol'), ('', SYM + ':symbol2str')],
     ['str2symbol()', 'symbol2str()', 'edge2str()'], 'differential monitor over random texts', S_NOTE)

prop('S06', 'Hashes are stable and new meanings are new',
     'The hash of a text is always the same 64 bit value, in every process and version, so that symbols of stored '
     'hypergraphs can be found again. A new meaning of a symbol without namespace keeps its root, has a namespace '
     'that begins with the prefix, and is not given twice, also by other threads and processes; symbols with a '
     'namespace are left as they are.',
     ['inputs', 'programs'],
     'Every text, symbol and prefix.',
     'The tests hash one text, and do not ask for meanings.',
     [SYM],
     [('', SYM + ':hashed'), ('', SYM + ':new_meaning'), ('', SYM + ':random_hash')],
     ['hashed()', 'new_meaning()'], 'differential and uniqueness monitor', S_NOTE)

K_NOTE = ('There is no language model in the sandbox: the annotations of the parses are random, or made by hand for the '
          "sentences of the project's extractor tests, in real spaCy documents. Assurance is that of the parses "
          'explored. Trusts the executable specification (gbmon/semref.py), which reproduces the expected outputs of '
          'those tests.')
K_TESTS = ('The extractor tests need a language model that is not available, and have nine sentences.')

prop('K01', 'Every word of a sentence ends up in its edge exactly once',
     'The knowledge extracted from a sentence has each of its words exactly once (words left unattached by the '
     'parser, punctuation and what only hangs from it excepted, and articles, which are dropped when relationships '
     'are made). No stage of the extraction loses, repeats or invents a word.',
     ['inputs'],
     'Every parse of every sentence.',
     K_TESTS,
     [STAGES + s + '.py' for s in ('alpha', 'beta', 'gamma', 'delta', 'epsilon')] + [TREE],
     [('', STAGES + 'alpha.py:process_child_token'), ('', STAGES + 'delta.py:process_entity'),
      ('', STAGES + 'gamma.py:process_entity1')],
     ['outputs of each stage'], 'conservation monitor over the stages', K_NOTE)

prop('K02', 'Words compose by their dependencies into nested parts',
     'The first stage composes the words of a sentence by their dependencies, starting from its root: modifiers '
     '(auxiliaries, determiners, adjectives and the like, and prepositions of what has no verb) are nested around '
     'the part they modify, compounds are joined to its first element on their side, and other words are added to '
     'it, in the order of the sentence. Punctuation and unattached words are left out with what hangs from them.',
     ['inputs'],
     'Every parse: any tree of words, with any labels and tags.',
     K_TESTS,
     [STAGES + 'alpha.py', TREE],
     [('', STAGES + 'alpha.py:process_child_token'), ('', TREE + ':nest'), ('', TREE + ':add_to_first_child')],
     ['output of the first stage'], 'differential monitor against an executable specification', K_NOTE)

prop('K03', 'Names and compound nouns become single concepts',
     'The second stage makes a compound of exactly the parts that are made of single words of the same type of named '
     'entity, or whose words are all nominal subjects, objects, or compounds by their dependency; everything else '
     'stays as it was.',
     ['inputs'],
     'Every parse: any tree of words, with any labels, tags and entity types.',
     K_TESTS,
     [STAGES + 'beta.py', TREE],
     [('', STAGES + 'beta.py:is_compound_by_entity_type'), ('', STAGES + 'beta.py:is_compound_by_deps')],
     ['output of the second stage'], 'differential monitor against an executable specification', K_NOTE)

prop('K04', 'Verbs and prepositions are combined into relationships',
     'The third stage, from the inside out, drops an article that stands before a part, makes a compound of single '
     'words that are all relational (verbs, adverbs, particles, prepositions), and joins a relationship that stands '
     'before a part to the relationship at the head of that part, as one compound. Everything else stays as it was.',
     ['inputs'],
     'Every parse: any tree of words, with any labels, tags and entity types.',
     K_TESTS,
     [STAGES + 'gamma.py', TREE],
     [('', STAGES + 'gamma.py:process_entity1'), ('', STAGES + 'gamma.py:process_entity2'),
      ('', STAGES + 'gamma.py:combine_relationships')],
     ['output of the third stage'], 'differential monitor against an executable specification', K_NOTE)

prop('K05', 'Of all combinations of relationships the best fitting one is taken',
     'When a sentence is a relationship whose parameters are relationships too, the fourth stage takes, of all the '
     'ways to make them one (side by side, joined where they touch, or left as they are), the first that fits best: '
     'one place for each parameter, and parameters under the words they were under. The result does not depend on '
     'the candidates that were discarded, and what is not combined stays as it was.',
     ['inputs'],
     'Every parse: any tree of words, with any labels, tags and entity types.',
     K_TESTS,
     [STAGES + 'delta.py', TREE],
     [('', STAGES + 'delta.py:find_candidates_r'), ('', STAGES + 'delta.py:node_fit')],
     ['output of the fourth stage'], 'differential monitor against an exhaustive executable specification', K_NOTE)

prop('K06', 'Extracted knowledge is a valid edge that can be stored and found',
     'The last stage gives an edge with the shape of the parts it was made of, with one symbol for each word or '
     'compound, whose root is its words in lower case, joined by underscores. Whatever the words are (slashes, parentheses, '
     'spaces, numbers, any script), the symbols are valid, the edge survives being written and read, and a '
     'hypergraph that stores it gives it back and finds it by its parts.',
     ['inputs'],
     'Every parse and every text of its words.',
     K_TESTS,
     [STAGES + 'epsilon.py', SYM, 'gb/knowledge/extractor.py'],
     [('', STAGES + 'epsilon.py:leaf_to_hyperedges'), ('', STAGES + 'epsilon.py:compound_node_to_hyperedges')],
     ['output of the last stage', 'a hypergraph'], 'differential and round-trip monitor', K_NOTE)

prop('K07', 'Extraction depends on the sentence alone and changes nothing else',
     'Reading a text gives, for each of its sentences in order, what that sentence gives by itself, whatever was '
     'read before or is being read by another thread, with or without debugging output; and the outputs of the stages are those of the last sentence. '
     'Neither the parse nor the hypergraph is changed by it, and a stage that does not exist is refused.',
     ['inputs', 'histories', 'configurations'],
     'Every sequence of texts, and every sequence of stages.',
     K_TESTS,
     ['gb/knowledge/extractor.py', TREE],
     [('one tree for each sentence', 'gb/knowledge/extractor.py:read_sentence')],
     ['read_text()', 'outputs', 'SQL statements of the hypergraph'], 'isolation monitor over repeated readings', K_NOTE)

prop('N01', 'Parsing keeps every sentence, token, attribute and link of the parse',
     'A parsed text has all the sentences of the parse in order, each with all its tokens in order, with their '
     'words, lemmas, tags, shapes, probabilities, entity types and dependency labels. The children on each side and '
     'the parent of a token are those of the parse, and are the very tokens of the sentence.',
     ['inputs'],
     'Every annotated document, and any number of them with one parser.',
     'The parser has no tests: it needs a language model.',
     ['gb/nlp/parser.py', 'gb/nlp/nlp_token.py'],
     [('', 'gb/nlp/parser.py:parse_text')],
     ['sentences and tokens'], 'structural monitor over real spaCy documents', K_NOTE)

prop('N02', 'A token stands for the words below it, in order',
     'The words of a token are those below it in the parse, in the order of the sentence, without punctuation and '
     'spaces when only words are asked for; its text is made of them. The root of a sentence is its token that '
     'is labelled so, and tokens are equal exactly if they have the same word, part of speech and dependency.',
     ['inputs'],
     'Every projective parse with one root in each sentence.',
     'The tests do not build sentences: they need a language model.',
     ['gb/nlp/nlp_token.py', 'gb/nlp/sentence.py'],
     [('', 'gb/nlp/nlp_token.py:to_list'), ('', 'gb/nlp/sentence.py:root')],
     ['tokens and sentences'], 'structural monitor over random parses', K_NOTE)

prop('N03', 'The tree of a sentence that is printed shows every token once, under its head',
     'The tree that is printed for a sentence, also as debugging output of the extractor, has one line for each '
     'token below the root and the root itself: its word, tag, dependency and entity type, the side it is on, '
     'indented under its head, left children before right ones and in their order, even if the same word is there '
     'several times. A sentence without a root prints no tree.',
     ['inputs'],
     'Every projective parse with at most one root.',
     'The tests do not print trees: they need a language model.',
     ['gb/nlp/sentence.py', 'gb/knowledge/extractor.py'],
     [('', 'gb/nlp/sentence.py:token2label_tree'), ('', 'gb/nlp/sentence.py:print_tree')],
     ['printed text'], 'monitor that reads the drawings back', K_NOTE)

prop('N04', 'Reading text after text does not use up more and more memory',
     'A parser, or an extractor, can go on reading texts forever: of a text whose sentences (and what was extracted '
     'from them) are not used any more nothing is kept, but the outputs of the last sentence. It also holds for texts '
     'that fail.',
     ['histories'],
     'Every sequence of texts, with any stages, with and without debugging output.',
     'The tests read one sentence with each parser.',
     ['gb/nlp/parser.py', 'gb/knowledge/extractor.py'],
     [('the tokens of a text are only kept while it is parsed', 'gb/nlp/parser.py:parse_text'),
      ('the outputs are those of the last sentence', 'gb/knowledge/extractor.py:read_sentence')],
     ['objects that are alive', 'blocks of memory in use'], 'leak monitor over repeated reading', K_NOTE)

prop('R01', 'Reading WordNet stores exactly what the corpus states, as beliefs of WordNet',
     'After WordNet is read the hypergraph has, beside what it had before, exactly the facts of the corpus: which '
     'part of speech each lemma has, and every synonym, antonym, hypernym, meronym and so on between lemmas, in the '
     'right direction, each one with WordNet as its source. Nothing of the last part of the corpus is missing, names '
     'with slashes, dots, digits or apostrophes are valid symbols, and reading it again changes nothing.',
     ['inputs', 'histories'],
     'Every corpus with the interface of WordNet, and every hypergraph it is read into.',
     'The reader has no tests: the corpus is not available.',
     ['gb/readers/wordnet.py', BATCH, HG],
     [('', 'gb/readers/wordnet.py:process_synset'), ('', 'gb/readers/wordnet.py:read')],
     ['all the queries on the hypergraph'], 'differential monitor of the resulting hypergraph',
     'The WordNet corpus is not in the sandbox: random corpora with its interface take its place. Trusts the '
     'reference in the check.')

prop('R02', 'Reading WordNet can break off at any point, and be done again',
     'Whenever the reading breaks off (an error of the database or of the corpus, the user, the death of the '
     'process), the hypergraph has what it had before and a part of the facts, each one together with WordNet as its '
     'source and with the degrees that go with what is stored. Reading again completes it.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'Every corpus, every hypergraph, every size of the buffer, and every point at which it breaks.',
     'The reader has no tests, and tests do not break anything.',
     ['gb/readers/wordnet.py', BATCH, HG, SQL],
     [('facts and their sources are buffered together', HG + ':add_belief'), ('', BATCH + ':flush'),
      ('', SQL + ':transaction')],
     ['all the queries on the hypergraph'], 'fault injection into the reading, audited with the stated facts',
     'Faults are injected at the interface of the database and of the corpus, a stand-in. Trusts the reference in the '
     'check.', level='fault_enumeration')

prop('T01', 'The command line works on the database that was named, and nothing else',
     'Each command works on the backend and database given by its options (or the documented defaults), with the '
     'connection parameters that were given. Creating a hypergraph that exists keeps what it has, reading WordNet '
     'puts it in that database, and no other file is made or changed. A command that cannot do it ends with an error.',
     ['inputs', 'configurations', 'histories'],
     'Every sequence of commands with any options.',
     'The command line has no tests.',
     ['gb/gbrain.py', 'gb/tools/shell.py', HG],
     [('', 'gb/gbrain.py:cli')],
     ['exit codes', 'files', 'connection parameters', 'content of the databases'],
     'monitor of commands run in scratch directories',
     'MySQL and WordNet are stand-ins. Sequences of commands are sampled.')

prop('T02', 'Filtering a Wikipedia dump drops the special pages and nothing else',
     'The filter writes every line of the dump, in order and unchanged (line ends included), except the pages whose title has a colon, '
     'which are left out from their first to their last line.',
     ['inputs'],
     'Every dump in which pages begin and end on lines of their own and titles are on one line.',
     'The filter has no tests.',
     ['python/filter_wikidump.py'],
     [('', 'python/filter_wikidump.py:main')],
     ['standard output'], 'differential monitor over random dumps',
     'Dumps are sampled. Trusts the reference in the check.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            anchors = {'files': p['files'],
                       'mechanism': [dict(([('name', n)] if n else [('name', w.split(':')[-1])]) + [('where', w)])
                                     for n, w in p['mechanism']],
                       'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['tests'], 'anchors': anchors}, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python tools/setup.py',
        'checks': [{'property': p['id'],
                    'quick_cmd': '/opt/venv/bin/python run.py %s quick' % p['id'],
                    'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % p['id'],
                    'technique': 'runtime monitoring: ' + p['technique'],
                    'level': p['level'], 'level_note': p['note']} for p in P],
        'not_applicable': [],
        'notes': 'No hooks in /repo: the monitors wrap the interfaces from outside. See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
