"""
N01-N05: the JSON-LD side over a simulated web.

A plan describes sites (documents, contexts), engines, objects built before
the faults begin and shared by all clients, and what each client does: build
objects, read and follow properties, serialise, load documents.  Every request
is answered by the simulator, which draws the fault it meets.  Documents are
rendered from small models; the models say what every result must be.
"""
import datetime
import json
import re
from urllib import parse

from sim import kernel, net as netmod
from sim.base import Gen, Scenario

Violation = kernel.Violation
AS = 'https://www.w3.org/ns/activitystreams'
PER_REQUEST = 150.0          # seconds: no request may take longer

DEFAULT = 'http://www.w3.org/ns/activitystreams'      # without '@context'

# kinds of properties: s text, d date, n number, D duration, m media type,
# R references (one or a list), S one reference, P a page, W what a page is
# part of, C a collection of replies, U addresses, X object or text, O object
OBJ = {'name': 's', 'content': 's', 'summary': 's', 'mediaType': 'm',
       'duration': 'D', 'published': 'd', 'updated': 'd', 'startTime': 'd',
       'endTime': 'd', 'url': 'U', 'replies': 'C', 'tag': 'T',
       **{p: 'R' for p in (
           'attachment attributedTo audience bcc bto cc generator icon image '
           'inReplyTo location preview to').split()}}
ACT = {**OBJ, **{p: 'R' for p in
                 'actor object target result origin instrument'.split()}}
COL = {**OBJ, 'first': 'P', 'last': 'P', 'current': 'P', 'totalItems': 'n'}
SET = {**COL, 'items': 'R'}
ORD = {**COL, 'orderedItems': 'R'}
PAGE = {'next': 'P', 'prev': 'P', 'partOf': 'W'}
TYPES = {
    **{t: OBJ for t in (
        'Object Application Article Audio Document Event Group Image Note '
        'Organization Page Person Service Video Tombstone').split()},
    **{t: ACT for t in (
        'Accept Activity Add Announce Arrive Block Create Delete Dislike Flag '
        'Follow Ignore IntransitiveActivity Invite Join Leave Like Listen Move '
        'Offer Read Reject Remove TentativeAccept TentativeReject Travel Undo '
        'Update View').split()},
    'Question': {**ACT, 'oneOf': 'R', 'anyOf': 'R', 'closed': 'R'},
    'Relationship': {**OBJ, 'subject': 'S', 'object': 'R',
                     'relationship': 'X'},
    'Profile': {**OBJ, 'describes': 'O'},
    'Place': {**OBJ, 'units': 's', **{p: 'n' for p in (
        'accuracy altitude latitude longitude radius').split()}},
    'Collection': SET, 'CollectionPage': {**SET, **PAGE},
    'OrderedCollection': ORD,
    'OrderedCollectionPage': {**ORD, **PAGE, 'startIndex': 'n'}}
PAGES = ['CollectionPage', 'OrderedCollectionPage']
COLLECTIONS = ['Collection', 'OrderedCollection'] + PAGES
COMMON = ['Note', 'Person', 'Create', 'OrderedCollection', 'Question']
LINKS = ('Link', 'Mention')
REFS = 'RTSPWU'
LINKED = {p for t in TYPES.values() for p, kind in t.items() if kind in REFS}


def as_context():
    c = {'@vocab': '_:', 'as': AS + '#', 'xsd':
         'http://www.w3.org/2001/XMLSchema#', 'id': '@id', 'type': '@type'}
    for t in list(TYPES) + list(LINKS):
        c[t] = 'as:' + t
    for t, props in TYPES.items():
        for p, kind in props.items():
            if kind in REFS + 'CO':
                c[p] = {'@id': 'as:' + p, '@type': '@id'}
            elif kind == 'd':
                c[p] = {'@id': 'as:' + p, '@type': 'xsd:dateTime'}
            else:
                c[p] = 'as:' + p
    c['href'] = {'@id': 'as:href', '@type': '@id'}
    c['orderedItems'] = {'@id': 'as:items', '@type': '@id',
                         '@container': '@list'}
    return {'@context': c}


# one that needs no request
INLINE = {'@vocab': AS + '#', 'as': AS + '#', 'id': '@id', 'type': '@type',
          'href': {'@id': 'as:href', '@type': '@id'}}


def is_context(url, cfg):
    return url in (AS, DEFAULT) or url in cfg['ctxs'] or is_base(url)


def is_base(url):
    return url.startswith('https://c.example/') and url.endswith('/base')


def ctx_of(ctx):
    """The context an object has that was built under the given one."""
    return DEFAULT + '#' if ctx is None else ctx


# ------------------------------------------------------- models of documents
def render_val(v):
    k = v[0]
    if k in 'sdnue':
        return v[1]
    if k == 'L':
        return {'type': 'Link', 'href': v[1], 'name': v[2]}
    if k == 'M':
        return {'type': 'Mention', 'href': v[1], 'name': v[2]}
    if k == 'o':
        return render(v[1])
    if k == 'l':
        return [render_val(x) for x in v[1]]
    raise ValueError(v)


def render(node, ctx=None):
    t = node['t']
    say = node.get('say')
    out = {'@type' if say == '@' else 'type':
           t if say in (None, '@') else 'as:' + t if say == ':' else
           f'{AS}#{t}' if say == '#' else [t] if say == '[' else say}
    if ctx is not None:
        out['@context'] = ctx
    for p, v in node['p'].items():
        out[p] = render_val(v)
    return out


def data_val(v):
    k = v[0]
    if k in 'sdnue':
        return v[1]
    if k in ('L', 'M', 'PL'):
        return v[1]
    if k == 'o':
        return data_of(v[1])
    return [data_val(x) for x in v[1]]


def data_of(node):
    """What serialising the object gives (without the context)."""
    out = {'type': node['t']}
    if node['t'] in ('Object', 'Link'):
        del out['type']             # the root types are left out
    for p, v in node['p'].items():
        out[p] = data_val(v)
    if 'totalItems' in TYPES.get(node['t'], ()) and not out.get('totalItems'):
        v = node['p'].get('items', ['u'])
        out['totalItems'] = len(v[1]) if v[0] == 'l' else 0
    if node['t'] == 'OrderedCollectionPage':
        out.setdefault('startIndex', 0)
    return out


def link_of(v):
    """The description of a Link object for a link value."""
    if v[0] in ('u', 'PL', 'e'):
        return ['Link', {'href': v[1]}]
    if v[0] == 'L':
        return ['Link', {'href': v[1], 'name': v[2]}]
    return ['Mention', {'type': 'Mention', 'href': v[1], 'name': v[2]}]


def described(v, linked=True):
    """What reading the value gives when no link is followed."""
    k = v[0]
    if k == 's' or k == 'n' or not linked:
        return v[1]
    if k == 'd':
        return datetime.datetime.strptime(v[1], '%Y-%m-%dT%H:%M:%SZ')
    if k in ('u', 'L', 'M', 'PL', 'e'):
        return link_of(v)
    if k == 'o':
        return [v[1]['t'], data_of(v[1])]
    return [described(x) for x in v[1]]


def follows(v):
    return v is not None and v[0] in ('u', 'L', 'PL')


# ---------------------------------------------------------------- generation
SOFT = ['slow', 'redirect', 'slower']
HARD = ['refused', 'dns', 'tls', 'reset', 'connect-stall', 'header-stall',
        'body-stall', 'cut', 'short', 'status', 'garbage', 'loop', 'away',
        'downgrade', 'ghost']
ODD = ['ftp://a.example/x', 'https:///d0', 'a.example/d0', '',
       'https://u@a.example/d0', 'https://^a.example/d0',
       'https://a.example^/d0', 'file:///etc/hostname', 'https://a b.example/',
       '//a.example/d0', 'mailto:x@a.example', 'https://a,b.example/d1']

PROFILES = {
    'N01': {'read': 10, 'build': 2, 'data': 1, 'walk': 3, 'publish': 1,
            'adopt': 1, 'fail': .5, 'each': 2},
    'N02': {'load': 10, 'build': 2, 'mutate': 1, 'publish': 1, 'read': .5},
    'N03': {'read': 3, 'data': 8, 'walk': 2, 'build': 2, 'fail': 2, 'set': 1,
            'adopt': .5, 'each': .5},
    'N04': {'build': 10, 'data': 1, 'load': 1, 'read': 1, 'publish': .5},
    'N05': {'read': 6, 'build': 4, 'data': 6, 'walk': 2, 'load': 1, 'fail': 1,
            'set': 1, 'adopt': 3, 'publish': .5, 'each': 1},
}
HOT = [{'read': 4, 'build': 6, 'data': 3, 'adopt': 3, 'each': 1},
       {'adopt': 5, 'set': 2, 'build': 5, 'read': 1, 'data': 5}]


class WebGen(Gen):
    def __init__(self, seed, prop):
        super().__init__(seed, prop)
        r = self.r
        self.types = None          # all of them
        self.linky = False
        self.alias = None
        self.urls = []
        for i in range(r.randint(1, 5)):
            u = f'{"http" if r.random() < .15 else "https"}://' \
                f'{r.choice("ab")}.example/' + r.choice(
                    [f'd{i}'] * 4 + [f'd?n={i}', f'd{i}/', f'users/{i}',
                                     f'D{i}.json', f'd;v={i}'])
            if self.urls and r.random() < .4:
                # one that is easily taken for another
                old = r.choice(self.urls)
                u = r.choice([
                    old + '/', old.rstrip('/'), old + '?n=1', old + '?n=2',
                    old.split('?')[0], old.replace('.example/',
                                                   '.example:8443/'),
                    old.replace('/d', '/D'), old.replace('a.ex', 'b.ex'),
                    old.replace('http:', 'https:'), u])
            if u not in self.urls:
                self.urls.append(u)
        self.ctxs = []
        for i in range(r.choice([0, 0, 1, 2, 3])):
            u = 'https://c.example/' + r.choice([
                'x0', f'x{i}', f'x{i}', f'x?v={i}', 'X0', 'x0/', 'x'])
            if u not in self.ctxs:
                self.ctxs.append(u)

    def text(self):
        self.serial += 1
        return self.r.choice(['t%d', 't%d "q" \\', 'ü%d', '%d<br>']) \
            % self.serial

    def url(self):
        r = self.r
        if r.random() < .15:
            return f'https://gone.example/g{r.randrange(3)}'
        return r.choice(self.urls) + ('#part' if r.random() < .03 else '')

    def ref(self, depth, types=None):
        x = self.r.random()
        if x < (.6 if self.linky else .15):
            return ['L', self.url(), self.text()]
        if x < .18 and types is None:
            return ['e', self.r.choice(['', 'acct:']) + 'me@a.example']
        if x < .7 or depth <= 0:
            return ['u', self.url()]
        return ['o', self.node(depth - 1, t=types and self.r.choice(types))]

    def val(self, kind, depth):
        r = self.r
        if kind == 's':
            return ['s', '' if r.random() < .1 else self.text()]
        if kind == 'n':
            return ['n', r.choice([0, 1, 7, 120])]
        if kind == 'd':
            return ['d', f'20{r.randint(10, 30)}-0{r.randint(1, 9)}-1'
                    f'{r.randint(0, 9)}T0{r.randint(0, 9)}:1{r.randint(0, 9)}'
                    f':3{r.randint(0, 9)}Z']
        if kind == 'm':
            return ['s', r.choice(['text/html', 'text/plain', 'image/png'])]
        if kind == 'D':
            return ['s', r.choice(['PT5M', 'P1DT2H', 'PT36H', 'P1W'])]
        if kind == 'C':
            return ['o', self.node(min(depth, 1) - 1, t=r.choice(
                ['Collection', 'OrderedCollectionPage']))]
        if kind == 'O' or kind == 'X' and r.random() < .5:
            return ['o', self.node(min(depth, 1) - 1)]
        if kind == 'X':
            return ['s', self.text()]
        if kind == 'U':
            return r.choice([['u', self.url()], ['s', self.text()],
                             ['L', self.url(), self.text()],
                             ['l', [['u', self.url()], ['u', self.url()]]]])
        if kind == 'P':
            return self.ref(depth, ['OrderedCollectionPage'])
        if kind == 'W':
            return self.ref(depth, ['OrderedCollectionPage', 'Collection'])
        if kind == 'T' and r.random() < .4:
            return ['M', self.url(), self.text()]
        if kind == 'S' or r.random() < .65:
            return self.ref(depth)
        return ['l', [self.ref(depth) for _ in range(r.randint(0, 3))]]

    def node(self, depth, links=1, id=None, t=None):
        r = self.r
        say = None
        if self.alias and t in (None, self.alias[1]) and r.random() < .6:
            say, t = self.alias
        t = t or r.choice(self.types or (
            COMMON if r.random() < .4 else list(TYPES)))
        if say is None and self.alias and self.alias[0] == t:
            say = ':'              # the name means something else here
        if say is None and r.random() < .08:
            say = r.choice('@:#[')
        kinds = TYPES[t]
        names = r.sample(sorted(kinds), min(len(kinds), r.randint(0, 4)))
        if depth < 0:
            names = [n for n in names if kinds[n] not in 'COX']
        linked = [n for n in sorted(kinds) if kinds[n] in 'RPW']
        if depth >= 2:
            names += r.sample(linked, links)
        p = {}
        if id or r.random() < .4:
            p['id'] = ['s', id or f'https://a.example/i{self.n()}']
        for n in names:
            p[n] = self.val(kinds[n], depth)
        return {'t': t, 'p': p, **({'say': say} if say else {})}

    def ctx(self):
        r = self.r
        self.alias = None
        if r.random() < .04:
            return None
        if self.ctxs and r.random() < .4:
            ctx = r.choice([[AS, r.choice(self.ctxs)],
                            [r.choice(self.ctxs), AS]])
        else:
            ctx = r.choice([AS, AS, AS, [AS], INLINE])
        if r.random() < .25:
            t = r.choice(self.types or COMMON)
            self.alias = [r.choice(['Thing', 'Thing', 'Status'] + COMMON), t]
            if self.alias[0] != t:
                return (ctx if isinstance(ctx, list) else [ctx]) + \
                    [{self.alias[0]: 'as:' + t}]
            self.alias = None
        return ctx

    def pair(self, depth, **kw):
        """A document and its context."""
        ctx = self.ctx()
        node = self.node(depth, **kw)
        self.alias = None
        return {'node': node, 'ctx': ctx}

    def doc(self, url):
        r = self.r
        if r.random() < .06:
            # a link where a document should be
            t = r.choice(LINKS)
            return {'ctx': AS, 'node': {'t': t, 'p': {
                'href': ['s', self.url()], 'name': ['s', self.text()]}}}
        d = self.pair(2, id=url if r.random() < .7 else self.url())
        if r.random() < .3:
            d['ct'] = r.randrange(len(CTYPES))
        if r.random() < .12:
            d['odd'] = r.choice(['type', 'notype', 'actor', 'date', 'list',
                                 'html', 'empty', 'null', 'deep', 'badctx',
                                 'number', 'string'])
        return d


class Web(Scenario):
    def generate(self, prop, seed):
        g = WebGen(seed, prop)
        r = g.r
        threads = r.random() < {'N01': .35, 'N02': .4, 'N03': .5, 'N04': .2,
                                'N05': 1.0}[prop]
        x = r.random()
        kind = 'outage' if x < {'N01': .05, 'N04': .1}.get(prop, 0) else \
            'hot' if threads and x > 1 - {'N05': .4, 'N04': .3}.get(
                prop, .1) else None
        if kind == 'outage':
            threads = False
        if kind == 'hot' or r.random() < .3:
            g.types = r.sample(list(TYPES), r.randint(1, 3))
        docs = {u: g.doc(u) for u in g.urls}
        ctxs = {u: {'how': r.choice(['plain', 'nested', 'relative', 'link',
                                     'two', 'ignored', 'untyped']), 'n': i, 'charset': r.random() < .2}
                for i, u in enumerate(g.ctxs)}
        faulty = r.random() < .85
        rates = {}
        if kind == 'outage' or faulty:
            kinds = r.sample(HARD, r.choice([1, 2, 4, len(HARD)])) + \
                r.sample(SOFT, r.choice([0, 1, 3]))
            total = r.choice([.1, .3, .5, .8])
            if kind == 'hot':
                total = r.choice([0, .05, .1])
            if kind == 'outage':
                kinds, total = [k for k in kinds if k in HARD], 1.0
            weights = [r.random() + .1 for _ in kinds]
            rates = {k: total * w / sum(weights)
                     for k, w in zip(kinds, weights)}
        deep = 1 if kind == 'hot' else 2
        secure = r.random() < .8
        shared = [{'engine': r.randrange(2), **g.pair(2, links=2)}
                  for _ in range(r.randint(1, 3))]
        for s in shared:
            if secure and s['ctx'] is None:
                s['ctx'] = AS       # it would be refused
        profile = {k: w * r.choice([0, .3, 1, 1, 3])
                   for k, w in PROFILES[prop].items()}
        if kind == 'hot':
            g.linky = r.random() < .5
            profile = {k: w * r.choice([0, .3, 1, 1, 3])
                       for k, w in HOT[g.linky].items()}
        if kind == 'outage':
            profile = {'build': 8, **{k: .3 for k in PROFILES[prop]}}
        if not any(profile.values()):
            profile = PROFILES[prop]
        n = r.choice([2, 2, 3, 4]) if threads else 1
        size = (2, 6) if kind == 'hot' else (15, 40) if kind == 'outage' \
            else (1, 6) if threads else (2, 14)
        engines = 1 if kind else 2
        clients = [{'name': f'c{i}', 'ops': [
            self.op(g, profile, docs, len(shared), deep, engines, kind)
            for _ in range(r.randint(*size))]} for i in range(n)]
        if kind == 'hot':
            for c in clients:
                # something to work on
                c['ops'].insert(0, self.op(
                    g, {'build': 1}, docs, len(shared), deep, engines, kind))
                for op in c['ops']:
                    if op.get('on', [''])[0] == 'slot':
                        op['on'] = ['slot', 0]
                    if op['op'] == 'build':
                        op['into'] = 0
        preempt = {**g.preempt(), 'net': r.choice([0, .1, .4, .8])}
        if kind == 'hot':
            preempt.update(line=r.choice([.02, .05, .1, .2, .3]),
                           stall=r.choice([0, .1, .3]))
        return g.plan('web', [{'clients': clients}], {
            'docs': docs, 'ctxs': ctxs, 'rates': rates, 'shared': shared,
            'fresh': r.random() < .05, 'each': prop in ('N01', 'N05'),
            'known': r.random() < .6 and kind != 'outage' or kind == 'hot',
            'secure': secure, 'knobs': {'preempt': preempt}})

    def op(self, g, profile, docs, shared, deep, engines, kind):
        r = g.r
        op = {'n': g.n(), 'op': g.pick(profile)}
        k = op['op']
        if r.random() < .25 and kind != 'outage':
            op['good'] = True               # no faults during this operation
        if k in ('read', 'walk', 'data', 'fail', 'set', 'adopt', 'each'):
            op['on'] = ['shared', r.randrange(shared)] \
                if k in ('read', 'walk', 'data', 'fail', 'each') and \
                r.random() < .5 else ['slot', r.randrange(2)]
            op['pick'] = r.random()
        if k == 'read':
            op['how'] = r.choice(['attr', 'attr', 'item', 'two'])
            op['scalar'] = r.random() < .2
        if k == 'walk':
            op['into'] = r.randrange(2)
        if k == 'data':
            op['how'] = r.choice(['data', 'data', 'json', 'str', 'min'])
            x = r.random()
            if x < .15:
                op['include'] = r.sample(sorted(OBJ) + ['type', 'acontext'],
                                         r.randint(1, 20))
            elif x < .3:
                op['exclude'] = r.sample(sorted(OBJ) + ['type', 'acontext'],
                                         r.randint(1, 6))
            elif x < .35:
                op['rename'] = {'name': 'label', 'to': 'for'}
            elif x < .42:
                op['include_none'] = True
            elif x < .47:
                op['reject'] = True
        if k == 'fail':
            op['how'] = r.choice(['reject', 'key', 'set'])
        if k == 'build':
            op.update(g.pair(deep), engine=r.randrange(engines),
                      how=r.choice(['dict', 'dict', 'str', 'item', 'items']),
                      into=r.randrange(2))
            if op['how'] == 'items' and r.random() < .5:
                op['more'] = g.pair(1)
        if k == 'set':
            op['v'] = ['l', [['u', g.url()]]] if r.random() < .2 else \
                ['u', g.url()]
        if k == 'adopt':
            op['url'] = g.url()
            op['then'] = r.choice([None, 'data', 'read'])
            if kind == 'hot' and r.random() < .6:
                # stays a link, which becomes one of the engine's
                op.update(url=f'https://gone.example/g{r.randrange(3)}',
                          then='read')
        if k == 'publish':
            op['url'] = r.choice(list(docs))
            op['doc'] = g.doc(op['url'])
        if k in ('load', 'mutate'):
            x = r.random()
            op['url'] = r.choice(list(docs)) if x < .6 else AS if x < .7 \
                else r.choice(g.ctxs) if x < .8 and g.ctxs else \
                r.choice(ODD) if x < .93 else g.url()
            op['cached'] = r.random() < .75
            op['secure'] = r.random() < .6
        return op

    def run_phase(self, sim, plan, carry, k):
        if k:
            return
        Run(sim, plan).phase(plan['phases'][0])

    def next_phase(self, plan, carry, k, crash):
        return k < 1

    def simpler(self, plan):
        for kind in list(plan['config']['rates']):
            c = json.loads(json.dumps(plan))
            del c['config']['rates'][kind]
            yield c
        for key in ('docs', 'ctxs'):
            for u in list(plan['config'][key]):
                c = json.loads(json.dumps(plan))
                del c['config'][key][u]
                yield c
        for i, ph in enumerate(plan['phases']):
            for j, cl in enumerate(ph['clients']):
                for o, op in enumerate(cl['ops']):
                    if 'node' in op:
                        for p in list(op['node']['p']):
                            c = json.loads(json.dumps(plan))
                            del c['phases'][i]['clients'][j]['ops'][o][
                                'node']['p'][p]
                            yield c
        for i, s in enumerate(plan['config']['shared']):
            for p in list(s['node']['p']):
                c = json.loads(json.dumps(plan))
                del c['config']['shared'][i]['node']['p'][p]
                yield c


# ----------------------------------------------------------------- the sites
PROBE = {'t': 'Note', 'p': {
    'tag': ['M', 'https://a.example/p', 'm'], 'name': ['s', 'probe'],
    'icon': ['o', {'t': 'Image', 'p': {'name': ['s', 'i']}}],
    'to': ['l', [['o', {'t': 'Person', 'p': {}}],
                 ['o', {'t': 'Object', 'p': {'name': ['s', 'x']}}]]]}}


class Site:
    """Answers requests; remembers for every operation how it was served."""

    def __init__(self, run):
        self.run = run
        self.sim = run.sim
        cfg = run.cfg
        self.docs = {u: [d] for u, d in cfg['docs'].items()}
        self.ctxs = cfg['ctxs']
        self.rates = cfg['rates']
        self.log = {}              # label -> [entry]
        self.flags = {}            # label -> {'good', 'forbid'}
        self.total = 0             # requests ever made
        self.served = {}           # url -> [document] well served
        # (URL, secure?) that cached loaders have loaded
        self.cached = set()
        self.redirects = {}        # URL redirected to -> original
        self.detours = {}          # insecure URL -> secure one it leads to

    def content(self, url):
        """(body, content type, headers, json value, usable, version)"""
        url = parse.urldefrag(url)[0]
        if url in (AS, DEFAULT):
            return doc_of(as_context()) + (True, 0)
        if url in self.ctxs:
            c = self.ctxs[url]
            own = {f'ext{c["n"]}': f'https://ext.example/ns#e{c["n"]}'}
            base = url.rsplit('/', 1)[0]
            how = c['how']
            doc, headers, type_ = {'@context': own}, {}, 'application/ld+json'
            if how == 'nested':
                doc = {'@context': [AS, own]}
            elif how == 'two':
                doc = {'@context': [own, base + '/base']}
            elif how == 'relative':
                doc = {'@context': ['./base', own]}
            elif how == 'link':
                doc = {'@context': [own]}
                type_ = 'application/json'
                headers = {'link': f'<{base}/base>; rel="http://www.w3.org/ns'
                           '/json-ld#context"; type="application/ld+json"'}
            elif how == 'ignored':
                # a JSON-LD document has its context within
                headers = {'link': f'<{base}/nothing>; rel="http://www.w3.org/'
                           'ns/json-ld#context"; type="application/ld+json"'}
            elif how == 'untyped':
                type_ = None
            if c.get('charset') and how not in ('ignored', 'untyped'):
                type_ += '; charset=utf-8'
            return (json.dumps(doc).encode(), type_, headers, doc, True, 0)
        if is_base(url):
            return doc_of({'@context': {'basic':
                                        'https://ext.example/ns#basic'}}) + \
                (True, 0)
        if url in self.docs:
            version = len(self.docs[url]) - 1
            d = self.docs[url][version]
            body, type_, headers, value, usable = odd_doc(d)
            return body, type_, headers, value, usable, version
        return None

    def request(self, request):
        sim = self.sim
        label = sim.task().label
        url = request.url
        flags = self.flags.get(label, {})
        self.total += 1
        sim.count('requests')
        if flags.get('forbid'):
            raise_(Violation('network', f'{flags["forbid"]} made a request '
                             f'for {url}'))
        origin = self.redirects.get(url, url)
        if origin.rstrip('#') == DEFAULT:
            origin = DEFAULT
            if self.run.secure:
                raise_(Violation('network', f'{url} is not secure and was '
                                 f'requested by {label}'))
        kind = 'ok'
        if not flags.get('good') and self.rates:
            kind = sim.choose('net', self.draw, 'ok')
        entry = {'url': origin, 'at': url, 'kind': kind, 'outcome': 'good',
                 'version': None, 'doc': None}
        self.log.setdefault(label, []).append(entry)
        if kind != 'ok':
            sim.count('fault:' + kind)
        sim.log('request', label, url, kind)
        found = self.content(origin)
        is_ctx = is_context(origin, self.run.cfg)
        try:
            plan = self.answer(kind, request, origin, found, entry, is_ctx)
        except Exception as e:
            raise_(Violation("harness", f"the site failed: {e!r}"))
        if entry['outcome'] != 'bad' and not plan.get('hop') and found:
            self.served.setdefault(origin, []).append(found[3])
        if sim.keep_trace:
            sim.trace.append(f'    answer {url}: {kind} -> '
                             f'{entry["outcome"]} '
                             f'{ {k: v for k, v in plan.items() if k != "body"} }')
        return plan

    def draw(self, rng):
        x = rng.random()
        for kind, p in self.rates.items():
            x -= p
            if x < 0:
                return kind
        return 'ok'

    def answer(self, kind, request, origin, found, entry, is_ctx):
        url = request.url
        sim = self.sim
        bad = dict(entry, outcome='bad')
        plan = {'connect': .001, 'header': .002, 'body': b''}
        pick = sim.choose('net-how', lambda r: r.randrange(1 << 16), 0) \
            if kind != 'ok' else 0
        if kind in ('refused', 'dns', 'tls', 'reset'):
            entry['outcome'] = 'bad'
            return {**plan, 'error': kind}
        if kind in ('connect-stall', 'header-stall'):
            entry['outcome'] = 'bad'
            return {**plan, kind.split('-')[0]: netmod.FOREVER,
                    'error': 'reset'}
        if kind == 'loop':
            entry['outcome'] = 'bad'
            self.redirects[url] = origin
            return {**plan, 'status': 302, 'headers': {'location': url},
                    'hop': True}
        if kind == 'away':
            entry['outcome'] = 'bad'
            return {**plan, 'status': [301, 302, 307, 308][pick % 4],
                    'headers': {'location': 'https://gone.example/away'},
                    'hop': True}
        if found is None:
            entry['outcome'] = 'bad'
            return {**plan, **error_body(404, pick, origin, None)}
        body, type_, headers, value, usable, version = found
        entry['version'] = version
        entry['doc'] = value
        if value is GARBLED:
            entry['outcome'] = 'bad'
        entry['usable'] = usable
        if 'json' not in request.headers.get('Accept', ''):
            # people get to see a page; who wants the data has to say so, it
            # is not the fault of the site
            return {**plan, 'body': b'<html>hello</html>', 'type': 'text/html'}
        plan.update(body=body, type=type_, headers=dict(headers))
        if url in self.detours and kind in ('ok', 'redirect', 'downgrade'):
            entry['outcome'] = 'hop'
            return {**plan, 'status': 302, 'body': b'', 'hop': True,
                    'headers': {'location': self.detours[url]}}
        if kind == 'redirect' and url == origin:
            to, part = parse.urldefrag(origin)
            to += ('&' if '?' in origin else '?') + f'r={pick % 3}'
            self.redirects[to + (part and '#' + part)] = origin
            entry['outcome'] = 'hop'
            return {**plan, 'status': [301, 302, 303, 307, 308][pick % 5],
                    'headers': {'location': to}, 'body': b'moved',
                    'hop': True}
        if kind == 'downgrade':
            to, part = parse.urldefrag(origin)
            to = 'http' + to[to.index(':'):] + '?plain'
            self.redirects[to + (part and '#' + part)] = origin
            if parse.urldefrag(url)[0] != to:
                entry['outcome'] = 'hop'
                if pick & 1:
                    # and back again
                    back = 'https' + to[4:-5] + 'back'
                    self.detours[to + (part and '#' + part)] = \
                        back + (part and '#' + part)
                    self.redirects[back + (part and '#' + part)] = origin
                return {**plan, 'status': 302, 'headers': {'location': to},
                        'body': b'', 'hop': True}
            return plan
        if kind == 'slow':
            return {**plan, 'connect': .05, 'header': .3 * (pick % 3),
                    'chunks': [.1, .05][:pick % 3]}
        if kind == 'slower':
            entry['outcome'] = 'maybe' if entry['outcome'] == 'good' else 'bad'
            d = [4, 9, 20, 45, 100][pick % 5]
            where = pick // 5 % 3
            return {**plan, **({'connect': d} if where == 0 else
                               {'header': d} if where == 1 else
                               {'chunks': [d]})}
        if kind in ('body-stall', 'cut'):
            entry['outcome'] = 'bad'
            return {**plan, 'fail': {'cut': 'cut', 'body-stall': 'stall'}[kind]}
        if kind == 'short':
            entry['outcome'] = 'bad'
            return {**plan, 'short': pick % len(body) if body else 0}
        if kind == 'status':
            entry['outcome'] = 'bad'
            return {**plan, **error_body(
                [400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 504][
                    pick % 11], pick // 11, origin, body)}
        if kind == 'ghost':
            # an error page that looks like the real thing
            entry['outcome'] = 'bad'
            ghost = as_context() if is_ctx else {
                '@context': AS, 'type': 'Note', 'id': origin,
                'content': 'suspended'}
            if is_ctx:
                ghost['@context']['Note'] = 'as:Article'
            return {**plan, 'status': [404, 410, 500, 503][pick % 4],
                    'body': json.dumps(ghost).encode()}
        if kind == 'garbage':
            entry['outcome'] = 'bad'
            pages = [b'<html>hello</html>', b'', b'\xff\xfe\x00garbage',
                     b'{"a": ', b'not json', b'{"type":"Note",}',
                     b'callback({})']
            if not is_ctx and not self.flags.get(
                    sim.task().label, {}).get('load'):
                pages += [b'null', b'[]', b'{}', b'42', b'"x"', b'[1, 2]',
                          b'{"error": "no"}', json.dumps(
                              {'@context': AS, 'error': 'no'}).encode(),
                          json.dumps({'@context': AS, 'type': 'Wibble',
                                      'name': 'x'}).encode(),
                          json.dumps({'@context': {'type': '@type'},
                                      'type': 'Note'}).encode()]
            return {**plan, 'body': pages[pick % len(pages)],
                    'type': 'text/html' if pick & 64 else type_}
        return plan


GARBLED = ['<not json>']
CTYPES = ['application/activity+json', 'application/json',
          'application/activity+json; charset=utf-8',
          f'application/ld+json; profile="{AS}"', 'application/ld+json',
          'Application/JSON;charset=UTF-8']


def doc_of(value):
    return (json.dumps(value).encode(), 'application/ld+json', {}, value)


def odd_doc(d):
    """(body, type, headers, value, usable) of a document version."""
    value = render(d['node'], d['ctx'])
    odd = d.get('odd')
    usable = odd is None
    if odd in ('type', 'notype'):
        value.pop('type', None)
        value.pop('@type', None)
    if odd == 'type':
        value['type'] = 'Wibble'
    elif odd == 'actor':
        value['attributedTo'] = 'nobody in particular'
    elif odd == 'date':
        value['published'] = 'yesterday'
    elif odd == 'list':
        value = [value]
    elif odd == 'null':
        value = None
    elif odd == 'number':
        value = 7                  # one digit: a part of it is nothing
    elif odd == 'string':
        value = 'https://a.example/d0'
    elif odd == 'badctx':
        value['@context'] = 'https://nowhere.example/ctx'
    elif odd == 'deep':
        value['attachment'] = {'type': 'Note', 'published': 'never'}
    if odd in ('html', 'empty'):
        return ({'html': b'<html/>', 'empty': b''}[odd], 'text/html', {},
                GARBLED, False)
    return (json.dumps(value).encode(), CTYPES[d.get('ct', 0)], {},
            value, usable)


def error_body(status, pick, url, body):
    kinds = [b'', b'<html>error</html>', b'{"error": "not here"}',
             json.dumps({'@context': AS, 'type': 'Note', 'id': url,
                         'content': 'error'}).encode(),
             json.dumps({'@context': AS, 'error': 'x'}).encode()]
    if body:
        kinds.append(body)
    return {'status': status, 'body': kinds[pick % len(kinds)],
            'headers': {}, 'type': 'application/json'}


def raise_(e):
    # not through the code under test: it may swallow it
    kernel.SIM.fail(e)


# ------------------------------------------------------------------- running
ENGINES = []


def prepare():
    """Once per worker, before it forks: engines take long to create."""
    import activitystreams
    try:
        ENGINES.extend(activitystreams.create_engine() for _ in range(2))
    except Exception:
        ENGINES.clear()         # every run shows it


class Run:
    def __init__(self, sim, plan):
        self.sim = sim
        self.cfg = plan['config']
        self.site = Site(self)
        sim.net = self.site

    def phase(self, ph):
        import activitystreams
        import jsonld
        sim = self.sim
        netmod.install()
        self.jsonld = jsonld
        jsonld.JSONLD_DOCLOADER.secure = self.cfg['secure']
        self.secure = self.cfg['secure']
        self.engines = list(ENGINES) if ENGINES and \
            not self.cfg.get('fresh') else \
            [activitystreams.create_engine() for _ in range(2)]
        sim.quiet += 1
        self.site.flags['main'] = {'good': True}
        self.shared = []
        for s in self.cfg['shared']:
            e = self.engines[s['engine']]
            obj = e.from_json(render(s['node'], s['ctx']))
            self.shared.append(Obj(obj, s['node'], s['ctx'], s['engine']))
        self.note_loads('main', True)
        if not self.cfg['known']:
            # nothing is cached when the clients begin
            loader = jsonld.docloader.CachedRequestsJsonLoader
            for kept in vars(loader).values():
                if isinstance(kept, dict):
                    kept.clear()
            self.site.cached.clear()
            self.site.served.clear()
        sim.quiet -= 1
        clients = ph['clients']
        if len(clients) == 1:
            Client(self, clients[0]).run()
        else:
            sim.run([(c['name'], Client(self, c).run) for c in clients])
        # afterwards the web works again: everything is as it should be
        sim.main.label = 'end'
        self.site.flags['end'] = {'good': True}
        last = Client(self, {'name': 'end', 'ops': []})
        for i, o in enumerate(self.shared):
            last.label = f'end.{i}'
            sim.main.label = last.label
            self.site.flags[last.label] = {'good': True}
            last.op_data({'n': i, 'how': 'data'}, o)
            for p in sorted(o.node['p']):
                sim.main.label = last.label = f'end.{i}.{p}'
                self.site.flags[last.label] = {'good': True}
                last.read(o, p, 'attr')
            if not self.cfg.get('each'):
                continue
            sim.main.label = last.label = f'end.{i}.each'
            self.site.flags[last.label] = {'good': True}
            last.op_each({}, o)
        for i in range(2):
            # objects built now are like the ones built at first
            label = sim.main.label = last.label = f'end.e{i}'
            self.site.flags[label] = {'good': True}
            last.op_build({'node': PROBE, 'ctx': AS, 'engine': i,
                           'how': 'dict', 'into': i})
            for p in PROBE['p']:
                last.read(last.slots[i], p, 'attr')
        sim.count('done')

    def note_loads(self, label, by_cache):
        """Contexts loaded in the operation are in the cache from now on."""
        if not by_cache:
            return
        for url, e in finals(self.site.log.get(label, ())).items():
            if is_context(url, self.cfg) and \
                    e['outcome'] == 'good' and not self.insecure(label, url):
                self.site.cached.add((url, self.secure))

    def insecure(self, label, url, secure=None, log=None):
        """Was the URL reached over an insecure hop although it must not?"""
        if not (self.secure if secure is None else secure):
            return False
        return any(e['url'] == url and e['at'].startswith('http:')
                   for e in (self.site.log.get(label, ()) if log is None
                             else log))


def finals(entries):
    """The last thing that happened to each URL."""
    out = {}
    for e in entries:
        if e['outcome'] != 'hop':
            out[e['url']] = e
        elif e['url'] in out and out[e['url']]['outcome'] == 'good':
            pass
        else:
            out[e['url']] = dict(e, outcome='bad')
    return out


class Obj:
    """An object of the code and the model of it."""

    def __init__(self, obj, node, ctx, engine):
        self.obj = obj
        self.node = node
        self.ctx = ctx
        self.engine = engine


class Client:
    def __init__(self, run, spec):
        self.r = run
        self.sim = run.sim
        self.site = run.site
        self.name = spec['name']
        self.ops = spec['ops']
        self.slots = {}

    def run(self):
        task = self.sim.task()
        for op in self.ops:
            self.label = task.label = f'{self.name}.{op["n"]}'
            self.site.flags[self.label] = {'good': op.get('good')}
            self.sim.count('op:' + op['op'])
            begun, before = self.sim.now, self.site.total
            o = self.target(op)
            if 'on' in op and o is None:
                continue
            getattr(self, 'op_' + op['op'])(op, *([o] if 'on' in op else []))
            took = self.sim.now - begun
            n = self.site.total - before
            if took > PER_REQUEST * (n + 1):
                raise Violation('late', f'{self.label} {op["op"]} took '
                                f'{took:.0f} s')
            self.sim.log('end', self.label)
        task.label = self.name

    def target(self, op):
        if 'on' not in op:
            return None
        kind, i = op['on']
        return self.r.shared[i % len(self.r.shared)] if kind == 'shared' \
            and self.r.shared else self.slots.get(i)

    # ------------------------------------------------------------ description
    def describe(self, x, engine):
        """A comparable form; classes must be the engine's own."""
        if isinstance(x, self.r.jsonld.PropertyJsonLD):
            t = type(x).__name__
            if type(x) is not getattr(self.r.engines[engine], t, None):
                raise Violation('wrong-class', f'a {t} of another engine')
            if x.__namespace__ != f'{AS}#{t}':
                raise Violation('wrong-class', f'a {t} belongs to '
                                f'{x.__namespace__!r}')
            return [t, self.plain(x)]
        if isinstance(x, (list, tuple)):
            return [self.describe(i, engine) for i in x]
        return x

    def plain(self, x):
        flags = self.site.flags[self.label]
        old = flags.get('forbid')
        flags['forbid'] = 'serialising'
        d = x.data()
        flags['forbid'] = old
        d = dict(d)
        d.pop('@context', None)
        if type(x).__name__ == 'Link':
            d.pop('type', None)
        return d

    # ------------------------------------------------------------- operations
    def op_read(self, op, o):
        names = [p for p in sorted(o.node['p'])
                 if follows(o.node['p'][p]) and p in LINKED] \
            if not op.get('scalar') else []
        names = names or sorted(o.node['p'])
        if not names:
            return
        self.read(o, names[int(op['pick'] * len(names))], op['how'])

    def read(self, o, prop, how):
        """Reads one property; returns (object, Obj or None)."""
        mark = len(self.site.log.get(self.label, ()))
        try:
            if how == 'attr':
                got = getattr(o.obj, prop)
            elif how == 'item':
                got = o.obj[prop][prop]
            else:
                got = o.obj[[prop]][prop]
        except Exception as e:
            raise Violation('raised', f'reading {o.node["t"]}.{prop} raised '
                            f'{e!r}')
        return self.check_read(o, prop, got, mark)

    def check_read(self, o, prop, got, mark):
        log = self.site.log.get(self.label, [])[mark:]
        self.r.note_loads(self.label, True)
        d = self.describe(got, o.engine)
        what = f'{o.node["t"]}.{prop}'
        v = o.node['p'].get(prop)
        linked = prop in LINKED and o.node['t'] not in LINKS
        if not (follows(v) and linked):
            want = described(v, o.node['t'] not in LINKS) if v else None
            if prop in ('totalItems', 'startIndex', 'type'):
                want = data_of(o.node).get(prop)
            elif prop == 'acontext':
                want = ctx_of(o.ctx)
            elif prop == '__namespace__':
                want = f'{AS}#{o.node["t"]}'
            if d != want:
                raise Violation('wrong-value', f'{what} read {d!r}, should be '
                                f'{want!r}')
            if log:
                raise Violation('network', f'reading {what}, which is no '
                                f'link, requested {log[0]["url"]}')
            return got, None
        href = v[1]
        last = finals(log)
        unlinked = d == link_of(v)
        doc = last.get(href)
        outcomes = {e['outcome'] for e in last.values()}
        if doc is None:
            if unlinked:
                raise Violation('not-followed', f'{what} gave the link to '
                                f'{href} without asking for it')
            raise Violation('wrong-value', f'{what} gave {d!r} without a '
                            f'request')
        spec = doc['version'] is not None and \
            self.site.docs[parse.urldefrag(href)[0]][doc['version']]
        usable = doc.get('usable') and 'bad' not in outcomes \
            and not any(self.r.insecure(self.label, u, log=log) for u in last
                        if u != href) \
            and not (spec['ctx'] is None and self.r.secure)
        if unlinked:
            if got.href != href:
                raise Violation('wrong-value', f'{what}: the link changed')
            if usable and 'maybe' not in outcomes:
                raise Violation('not-followed', f'{what} gave the link to '
                                f'{href} although it was served '
                                f'{brief(last)}')
            self.sim.count('degraded')
            return got, None
        if not usable:
            raise Violation('wrong-value', f'{what} gave {d!r} although the '
                            f'link could not be followed: {brief(last)}')
        want = [spec['node']['t'], data_of(spec['node'])]
        if d != want:
            raise Violation('wrong-value', f'{what} gave {d!r}, {href} '
                            f'holds {want!r}')
        self.sim.count('followed')
        return got, Obj(got, spec['node'], spec['ctx'], o.engine)

    def op_each(self, op, o):
        """Goes over all properties, or over the items of a collection."""
        seen = {}
        mark = len(self.site.log.get(self.label, ()))
        if o.node['t'] in COLLECTIONS:
            prop = 'items' if 'items' in TYPES[o.node['t']] else 'orderedItems'
            try:
                got = list(o.obj)
            except Exception as e:
                raise Violation('raised', f'going over a {o.node["t"]} raised '
                                f'{e!r}')
            v = o.node['p'].get(prop)
            if v is None:
                if got:
                    raise Violation('wrong-value', f'an empty {o.node["t"]} '
                                    f'has the items {got!r:.300}')
            elif v[0] == 'l':
                self.check_read(o, prop, got, mark)
            elif len(got) != 1:
                raise Violation('wrong-value', f'a {o.node["t"]} of one item '
                                f'has {got!r:.300}')
            else:
                self.check_read(o, prop, got[0], mark)
            return
        try:
            for prop, got in o.obj:
                seen[prop] = got
                self.check_read(o, prop, got, mark)
                mark = len(self.site.log.get(self.label, ()))
        except Violation:
            raise
        except Exception as e:
            raise Violation('raised', f'going over a {o.node["t"]} raised '
                            f'{e!r} after {sorted(seen)}')
        lost = set(TYPES.get(o.node['t'], o.node['p'])) - set(seen)
        if lost:
            raise Violation('wrong-value', f'going over a {o.node["t"]} '
                            f'misses {sorted(lost)}')

    def op_walk(self, op, o):
        names = [p for p in sorted(o.node['p'])
                 if follows(o.node['p'][p]) and p in LINKED]
        if not names:
            return
        _, r = self.read(o, names[int(op['pick'] * len(names))], 'attr')
        if r is not None:
            self.slots[op['into']] = r

    def op_data(self, op, o):
        self.site.flags[self.label]['forbid'] = 'serialising'
        how = op['how']
        part = {k: op[k] for k in ('include', 'exclude', 'rename',
                                   'include_none') if k in op}
        want = {'@context': ctx_of(o.ctx), **data_of(o.node)}
        if op.get('reject') and how == 'data' and \
                isinstance(want.get('name'), str):
            part['reject_values'] = ['?', want['name']]
            for k in ('content', 'summary', 'name'):
                if want.get(k) == part['reject_values'][1]:
                    del want[k]
        if how == 'data':
            d = o.obj.data(**part)
        elif how == 'json':
            d = json.loads(o.obj.json(indent=1, **part))
        elif how == 'min':
            d = json.loads(o.obj.json(minified=True, **part))
        else:
            d = json.loads(str(o.obj))
            part = {}
        self.site.flags[self.label]['forbid'] = None
        if part.get('include_none'):
            # every property it has no value for as well (given as the text
            # 'None', see DESIGN.md)
            empty = {k for k, v in d.items() if v is None or v == 'None'}
            if missing := set(TYPES.get(o.node['t'], ())) - set(d):
                raise Violation('wrong-data', f'{how} of a {o.node["t"]} with '
                                f'what is empty has no {sorted(missing)}')
            d = {k: v for k, v in d.items() if k not in empty}
        for k in list(want):
            prop = {'@context': 'acontext'}.get(k, k)
            if 'include' in part and prop not in part['include'] or \
                    prop in part.get('exclude', ()):
                del want[k]
            elif k in part.get('rename', ()):
                want[part['rename'][k]] = want.pop(k)
        if d != want:
            raise Violation('wrong-data', f'{how} of a {o.node["t"]} gave '
                            f'{d!r}, should be {want!r}')
        self.sim.count('serialised')

    def op_fail(self, op, o):
        """Uses that fail and must leave nothing behind."""
        if o.node['t'] in LINKS:
            return
        self.site.flags[self.label]['forbid'] = 'a refused use'
        try:
            if op['how'] == 'reject':
                o.obj.data(reject_values=5)
            elif op['how'] == 'key':
                o.obj['nope']
            else:
                o.obj.published = 'not a date'
        except (TypeError, KeyError, ValueError):
            self.sim.count('refused')
        else:
            raise Violation('accepted', f'{op["how"]} did not fail')
        self.site.flags[self.label]['forbid'] = None

    def op_set(self, op, o):
        if o.node['t'] in LINKS:
            return
        prop = 'attributedTo'
        node = json.loads(json.dumps(o.node))
        node['p'][prop] = op['v']
        setattr(o.obj, prop, render_val(op['v']))
        o.node = node

    def op_adopt(self, op, o):
        if o.node['t'] in LINKS:
            return
        from activitystreams import models
        node = json.loads(json.dumps(o.node))
        self.sim.count('adopted')
        node['p']['generator'] = ['PL', op['url']]
        o.obj.generator = models.Link(href=op['url'])
        o.node = node
        if op.get('then') == 'data':
            self.op_data({'how': 'data'}, o)
        elif op.get('then') == 'read':
            self.read(o, 'generator', 'attr')

    def op_publish(self, op):
        self.site.docs.setdefault(op['url'], []).append(op['doc'])

    def op_build(self, op):
        engine = self.r.engines[op['engine']]
        specs = [op] + [op[k] for k in ('more',) if k in op]
        sources = [render(o['node'], o['ctx']) for o in specs]
        source = sources[0]
        before = [json.dumps(x) for x in sources]
        known = set(self.site.cached)
        how = op['how']
        error = None
        try:
            if how == 'dict':
                objs = [engine.from_json(source)]
            elif how == 'str':
                objs = [engine.from_json(before[0])]
            elif how == 'item':
                objs = [engine[before[0]]]
            else:
                objs = engine[before if op['n'] & 1 else tuple(before)]
        except Exception as e:
            error = e
        if [json.dumps(x) for x in sources] != before:
            raise Violation('input', 'building changed the document it was '
                            'given')
        log = self.site.log.get(self.label, [])
        last = finals(log)
        again = [u for u in last
                 if {(u, True), (u, self.r.secure)} & known]
        if again:
            raise Violation('refetched', f'{again[0]} was loaded before and '
                            'is requested again')
        self.r.note_loads(self.label, True)
        what = ' and '.join(o['node']['t'] for o in specs)
        if error is not None:
            if not any(e['outcome'] in ('bad', 'maybe') for e in
                       last.values()) and not any(
                    self.r.insecure(self.label, u) for u in last) and not (
                    self.r.secure and any(o['ctx'] is None for o in specs)):
                raise Violation('raised', f'building a {what} raised '
                                f'{error!r}; requests: {brief(last)}')
            self.sim.count('build-failed')
            return
        if len(objs) != len(specs):
            raise Violation('wrong-object', f'{len(specs)} documents gave '
                            f'{len(objs)} objects')
        for o, obj in zip(specs, objs):
            if o['ctx'] is None and self.r.secure:
                raise Violation('wrong-object', 'the default context cannot '
                                'be loaded securely')
            d = self.describe(obj, op['engine'])
            want = [o['node']['t'], data_of(o['node'])]
            if d != want:
                raise Violation('wrong-object', f'built {d!r}, should be '
                                f'{want!r}; requests: {brief(last)}')
            if obj.acontext != ctx_of(o['ctx']):
                raise Violation('wrong-object', f'the context became '
                                f'{obj.acontext!r}')
            self.sim.count('built')
        self.slots[op['into']] = Obj(objs[-1], specs[-1]['node'],
                                     specs[-1]['ctx'], op['engine'])

    def op_load(self, op, mutate=False):
        from jsonld.docloader import CachedRequestsJsonLoader, \
            RequestsJsonLoader
        from pyld.jsonld import JsonLdError
        url, secure, cached = op['url'], op['secure'], op['cached']
        loader = (CachedRequestsJsonLoader if cached else RequestsJsonLoader)(
            secure=secure)
        flags = self.site.flags[self.label]
        flags['load'] = True
        allowed = acceptable(url, secure)
        hit = cached and ((url, True) in self.site.cached or
                          (url, secure) in self.site.cached)
        if not allowed:
            flags['forbid'] = f'refusing {url!r}'
        elif hit:
            flags['forbid'] = f'{url}, loaded before,'
        others = self.site.total
        error = None
        try:
            got = loader(url)
        except Exception as e:
            error = e
        flags['forbid'] = None
        last = finals(self.site.log.get(self.label, []))
        e = last.get(url)
        what = f'loading {url!r} (secure={secure}, cached={cached})'
        insecure = self.r.insecure(self.label, url, secure)
        if error is not None:
            if not isinstance(error, JsonLdError):
                raise Violation('error-kind', f'{what} raised {error!r}')
            if not allowed:
                self.sim.count('refused')
                return
            if hit or (e is not None and e['outcome'] == 'good'
                       and not insecure):
                raise Violation('raised', f'{what} raised {error!r}; '
                                f'{brief(last)}')
            if e is None and self.site.total == others:
                raise Violation('remembered', f'{what} raised {error!r} '
                                'without a request')
            self.sim.count('load-failed')
            return
        if not allowed:
            raise Violation('insecure', f'{what} was not refused')
        if e is not None and (e['outcome'] == 'bad' or insecure):
            raise Violation('bad-document', f'{what} gave {got!r:.300} '
                            f'although it was not served: {brief(last)}')
        if e is None and not cached:
            raise Violation('bad-document', f'{what} made no request')
        if not isinstance(got, dict) or \
                got.get('document') not in self.site.served.get(url, ()):
            raise Violation('bad-document', f'{what} gave {got!r:.300}')
        if e is not None and got['document'] != e['doc'] and not cached:
            raise Violation('bad-document', f'{what} gave an old document')
        c = self.site.content(url)
        if url in self.site.ctxs:
            # the link header belongs to the document
            link = url.rsplit('/', 1)[0] + '/base' \
                if self.site.ctxs[url]['how'] == 'link' else None
            if got.get('contextUrl') != link or got.get('contentType') != \
                    (c[1] or 'application/octet-stream'):
                raise Violation('bad-document', f'{what} lost the context '
                                f'link: {got!r:.300}')
        if self.site.redirects.get(got.get('documentUrl'),
                                   got.get('documentUrl')) != url:
            raise Violation('bad-document', f'{what} names '
                            f'{got.get("documentUrl")!r}')
        if secure and not str(got.get('documentUrl')).startswith('https:'):
            raise Violation('insecure', f'{what} gave what came through an '
                            f'insecure connection: {got.get("documentUrl")!r}')
        if cached:
            self.site.cached.add((url, secure))
        self.sim.count('loaded')
        if mutate and isinstance(got['document'], dict):
            got['document']['@context'] = 'spoilt'
            got['contextUrl'] = 'https://spoilt.example/'

    def op_mutate(self, op):
        self.op_load(op, mutate=True)


def acceptable(url, secure):
    p = parse.urlparse(url)
    if p.scheme not in ('http', 'https') or not p.netloc:
        return False
    if re.search('[^a-zA-Z0-9_.:-]', p.netloc):
        return False
    return p.scheme == 'https' or not secure


def brief(last):
    return ', '.join(f'{u}: {e["kind"]}/{e["outcome"]}'
                     f'{"" if e.get("usable", True) else "/unusable"}'
                     for u, e in last.items()) or 'none'
