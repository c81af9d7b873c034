"""Which scenario decides which property, and how much of it is run."""


class Entry:
    def __init__(self, scenario, runs, wall=None, rule='', real=None,
                 stub=None, assumptions=None, net=None, technique='',
                 note=''):
        self.scenario = scenario           # 'module:Class'
        self.runs = {'quick': runs, 'thorough': runs * 18}
        self.wall = wall or {'quick': 240.0, 'thorough': 780.0}
        self.rule = rule
        self.real = real or []
        self.stub = stub or []
        self.assumptions = assumptions or []
        self.net = net
        self.technique = technique
        self.note = note

    def boot(self):
        import importlib
        from sim import boot
        boot.boot(net=self.net)
        mod, cls = self.scenario.split(':')
        scenario = getattr(importlib.import_module('sim.' + mod), cls)()
        boot.trace(getattr(scenario, 'instr', False))
        return scenario


KV_REAL = ['citrine (all modules used by the databases)', 'ZODB (FileStorage, '
           'DB, Connection, MVCC adapter, pack, recovery)', 'transaction',
           'BTrees', 'persistent']
KV_STUB = ['operating system files (simulated disk)', 'thread scheduling and '
           'locks (seeded kernel)', 'clocks and timers (virtual)',
           'os.urandom/random/uuid (seeded)']
KV_ASSUME = [
    'a crash keeps, for every file, a prefix of the un-synced writes to it, '
    'the last one possibly torn; renames are atomic and ordered',
    'at most one I/O error per operation and none in truncate(): two in one '
    'commit defeat FileStorage itself (see DESIGN.md)',
    'packing is done by a single client and is not cut off between its two '
    'renames: ZODB does not promise that']


def kv(runs, extra, **kw):
    return Entry('kvscen:KVScenario', runs,
                 rule='plans drawn from the seed: layout, clients, operations,'
                 ' fault and preemption rates (swarm). ' + extra +
                 ' Distinct by the digest of the complete history.',
                 real=KV_REAL, stub=KV_STUB, assumptions=KV_ASSUME, **kw)


WEB_REAL = ['jsonld (engine, packages, properties, document loaders)',
            'activitystreams', 'pyld', 'requests (sessions, redirects, '
            'decoding, JSON)', 'urllib3 response reading']
WEB_STUB = ['sockets, DNS and TLS (HTTPAdapter.send answers from simulated '
            'sites)', 'thread scheduling and locks (seeded kernel)',
            'clocks and timers (virtual)']


def web(runs):
    return Entry('web:Web', runs, rule='plans drawn from the seed: sites with '
                 'documents and contexts, objects, clients that build, read, '
                 'follow, serialise and load, fault kinds and rates, '
                 'preemption rates (swarm). Non-trivial: a fault or a '
                 'preemption. Distinct by the digest of the complete history.',
                 real=WEB_REAL, stub=WEB_STUB,
                 net=['requests', 'jsonld', 'activitystreams', 'sim.web'],
                 assumptions=['the bound on time is per request: a remote '
                              'that keeps sending a little is not cut off',
                              'preemption inside pyld only at its requests'])


FAULTY = ('Non-trivial: at least one commit, and a crash, an injected fault, '
          'a preemption or a restart.')
ENTRIES = {
    'C01': kv(4000, FAULTY),
    'C02': kv(4000, FAULTY),
    'C03': kv(3000, FAULTY),
    'C04': kv(5000, FAULTY),
    'C05': kv(4000, FAULTY),
    'C06': kv(5000, FAULTY),
    'C07': kv(4000, FAULTY),
    'C08': kv(5000, FAULTY),
    'C09': kv(4000, FAULTY),
    'C10': kv(3000, FAULTY),
    'C11': Entry('creation:Creation', 4000, rule='plans drawn from the seed: '
                 'creations in every way, openings, writes, closings, second '
                 'openings and foreign files over several restarts. '
                 'Non-trivial: a fault, a crash or a restart. Distinct by '
                 'the digest of the complete history.',
                 real=KV_REAL, stub=KV_STUB, assumptions=KV_ASSUME[:2]),
    'C17': Entry('modules:Modules', 4000, rule='plans drawn from the seed: '
                 'creations, overwritings, deletions, discoveries and uses of '
                 'modules with similar names beside foreign files, over '
                 'several restarts. Non-trivial: a fault, a crash or a '
                 'restart. Distinct by the digest of the complete history.',
                 real=['citrine.cluster_tools.dbmodule'] + KV_REAL,
                 stub=KV_STUB, assumptions=KV_ASSUME[:2]),
    'C15': Entry('group:Group', 6000, rule='plans drawn from the seed: up to '
                 'four databases, readers through a group, writers, stalls '
                 'and errors of disk reads, timeouts from 0 to days. '
                 'Non-trivial: a fault or a preemption. Distinct by the '
                 'digest of the complete history.',
                 real=['citrine.connection.group_connection', 'asyncio tasks, '
                       'task groups and timeouts'] + KV_REAL,
                 stub=KV_STUB + ['the event loop\'s selector (virtual clock)'],
                 assumptions=['databases are read by blocking calls, as the '
                              'code does: a stalled read delays the timeout '
                              'until it returns']),
    'C16': Entry('classic:Classic', 4000, rule='plans drawn from the seed: '
                 'clients doing single operations, blocks, expansions and '
                 'setups on a classic database. ' + FAULTY + ' Distinct by '
                 'the digest of the complete history.',
                 real=['citrine.connection.connection', 'citrine.persistence']
                 + KV_REAL[1:], stub=KV_STUB, assumptions=KV_ASSUME),
    'C14': Entry('remote:Remote', 2000, rule='plans drawn from the seed: up '
                 'to three clients, cuts, partitions, slow links, kills and '
                 'power losses of the server, kills of clients. Non-trivial: '
                 'at least one commit and a preemption. Distinct by the '
                 'digest of the complete history.',
                 real=['citrine.client', 'ZEO (ClientStorage, cache, '
                       'StorageServer, protocols, asyncio tasks)'] + KV_REAL,
                 stub=KV_STUB + ['sockets (simulated links)'],
                 net=['sim.znet', 'sim.remote']),
    'N01': web(2000),
    'N02': web(2000),
    'N03': web(2000),
    'N04': web(2000),
    'N05': web(2000),
    'C12': kv(3000, FAULTY),
    'C13': kv(4000, FAULTY),
}


def get(prop):
    return ENTRIES[prop]
