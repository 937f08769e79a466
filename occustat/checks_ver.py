"""Check of the package namespace and of the version lookup, on models of git, of the exported archive and of the interpreter."""
import re
from .lib import *
from .lib import REPO
from .checks_phys import check

API = {'occuprob.partitionfunctions': ('PartitionFunction', 'ElectronicPF', 'RotationalPF', 'ClassicalHarmonicPF', 'QuantumHarmonicPF'),
       'occuprob.superpositions': ('SuperpositionApproximation',),
       'occuprob.utils': ('calc_beta', 'calc_exponent', 'calc_geometric_mean', 'compare_numpy_dictionaries'),
       'occuprob.io': ('calc_symmetry_order', 'load_properties_from_extxyz', 'plot_results')}
KEYS = ('version', 'full-revisionid', 'dirty', 'error', 'date')
SHA = '5e0c2f1d9a7b3c4e8f6a1b2c3d4e5f60718293a4'
DATE, ISO = '2024-05-06 07:08:09 +0200', '2024-05-06T07:08:09+0200'
TREE = '/work/tree'


class Git:
    """Answers of git in a checkout: describe output, branch, and for one command a failure."""

    def __init__(self, describe='1.2-0-g5e0c2f1', branch='main', contains='  main\n', fail=None, how=(128, b'', b'fatal\n'), date=DATE, count='17',
                 root=TREE, foreign=True):
        self.describe, self.branch, self.contains, self.fail, self.how = describe, branch, contains, fail, how
        self.date, self.count, self.root = date, count, root

    def __call__(self, argv, k):
        if argv[0].rsplit('/', 1)[-1] not in ('git', 'git.exe', 'git.cmd'):
            return 'FileNotFoundError', 2
        cwd = k.get('cwd')
        rest = list(argv[1:])
        env = k.get('env')
        if rest == ['--version']:
            return 0, b'git version 2.43.0\n', b''
        gitdir = None if isinstance(env, Dct) and 'GIT_DIR' not in env.c else '/elsewhere/.git'
        while rest and rest[0] in ('-C', '-c', '--git-dir', '--no-pager') or rest and rest[0].startswith('--git-dir='):
            o = rest.pop(0)
            if o == '-C':
                cwd = rest.pop(0)
            elif o == '-c':
                rest.pop(0)
            elif o == '--git-dir':
                gitdir = rest.pop(0)
            elif o.startswith('--git-dir='):
                gitdir = o.split('=', 1)[1]
        if cwd is not None and not isinstance(cwd, str):
            raise Bail('directory %r' % (cwd,))
        if cwd is None:
            cwd = '/somewhere'
        if gitdir is not None and gitdir.rstrip('/') != self.root + '/.git':
            return 0, {'describe': b'9.9-0-gfffffff', 'show': b'1999-01-01 00:00:00 +0000'}.get(rest[0], b'f' * 40) + b'\n', b''
        if gitdir is None and (cwd.rstrip('/') + '/').find(self.root.rstrip('/') + '/') != 0:
            return 128, b'', b'fatal: not a git repository\n'
        sub, args = rest[0], rest[1:]
        if sub == 'rev-parse' and ({'--git-dir', '--show-toplevel', '--is-inside-work-tree', '--absolute-git-dir', '--git-common-dir'} & set(args)):
            kind, out = 'dir', {'--show-toplevel': self.root, '--is-inside-work-tree': 'true'}.get(args[-1], '.git')
        elif sub == 'describe':
            kind, out = 'describe', self.describe
        elif sub == 'rev-parse' and '--abbrev-ref' in args:
            kind, out = 'branch', self.branch
        elif sub in ('rev-parse',):
            kind, out = 'sha', SHA[:7] if '--short' in args else SHA
        elif sub == 'branch':
            kind, out = 'contains', self.contains
        elif sub == 'rev-list' and '--count' in args:
            kind, out = 'count', self.count
        elif sub == 'rev-list':
            kind, out = 'count', '\n'.join([SHA] * int(self.count))
        elif sub in ('show', 'log'):
            fm = next((x.split('=', 1)[1] for x in args if x.startswith(('--format=', '--pretty='))), '')
            fm = fm.replace('format:', '').replace('tformat:', '')
            kind, out = 'date', {'%ci': self.date, '%cI': ISO[:-2] + ':' + ISO[-2:], '%H': SHA}.get(fm)
            if out is None:
                raise Bail('git %s' % ' '.join(rest))
        else:
            raise Bail('git %s' % ' '.join(rest))
        if self.fail == kind or self.fail == 'any':
            return self.how
        return 0, (out if isinstance(out, bytes) else out.encode()) + b'\n', b''


def no_git(err=('FileNotFoundError', 2)):
    return lambda argv, k: err


def not_a_repo(argv, k):
    return 128, b'', b'fatal: not a git repository (or any of the parent directories): .git\n'


FORMATS = {'%d': None, '%D': None, '%H': SHA, '%h': SHA[:7], '%ci': DATE, '%cI': ISO[:-2] + ':' + ISO[-2:]}


NODATE = """

_keywords_with_date = get_keywords


def get_keywords():
    k = dict(_keywords_with_date())
    k.pop('date', None)
    return k
"""


def archive_text(refs, dated=True):
    """The version module as 'git archive' exports it; without the date, the keywords of an older exporter."""
    p = os.path.join(REPO, 'occuprob', '_version.py')
    try:
        with open(p, encoding='utf-8') as f:
            t = f.read()
    except OSError:
        raise AnchorMissing('occuprob/_version.py not found')

    def sub(m):
        f = m.group(1)
        if f == '%d':
            return ' (%s)' % refs if refs else ''
        if f == '%D':
            return refs
        if f in FORMATS:
            return FORMATS[f]
        return m.group(0)
    n = re.sub(r'\$Format:([^$\n]*)\$', sub, t)
    if n == t:
        raise AnchorMissing('no archive keywords in _version.py')
    if not dated and re.search(r'^def get_keywords\(', n, re.M):
        n += NODATE
    return n


def session(programs, where=TREE + '/occuprob', archive=None, platform='linux', dated=True):
    ov = {} if archive is None else {os.path.join(REPO, 'occuprob', '_version.py'): archive_text(archive, dated)}
    s = Sess(stub=False, source_=source(ov))
    s.I.programs = programs
    s.I.nofile = where
    s.I.extmods['sys'].c['platform'] = platform
    if platform == 'win32':
        s.I.extmods['os'].c['name'] = 'nt'
    return s


def lookup(s):
    m = s.mod('occuprob._version')
    f = m.c.get('get_versions')
    if f is None:
        raise AnchorMissing('occuprob._version.get_versions not found')
    try:
        v, p = s.call(f)
    except PyRaise as e:
        raise Viol('the version lookup raises %s' % excname(e.exc), getattr(e.exc, 'where', '?'))
    s.norm_raise(p, 'the version lookup')
    if isinstance(v, Choice):
        raise Undecided('conditional result')
    if not isinstance(v, Dct):
        raise Viol('the version lookup returns %r' % (v,), 'occuprob._version.get_versions')
    r = {}
    for k in KEYS:
        if k not in v.c:
            raise Viol('the version lookup returns no entry %r (has %s)' % (k, sorted(map(str, v.c))), 'occuprob._version.get_versions')
        x = s.I.force(v.c[k])
        if isinstance(x, (Choice, Ext, Host)):
            raise Undecided('entry %r is %r' % (k, x))
        r[k] = x
    return r


def bad(what, got):
    raise Viol('%s; lookup answers %s' % (what, {k: got[k] for k in KEYS}), 'occuprob._version.get_versions')


def is_text(x):
    return isinstance(x, (str, Str)) and x != ''


def truth_of(x):
    if isinstance(x, Sc) and x.t in (T.TRUE, T.FALSE):
        return x.t is T.TRUE
    return x


def unknown(r, what, rev=None):
    if not is_text(r['version']):
        bad('%s: the version is no text' % what, r)
    if not is_text(r['error']):
        bad('%s: no version can be found, and no error is reported' % what, r)
    if r['full-revisionid'] not in (rev, None) or rev is not None and r['full-revisionid'] != rev:
        bad('%s: revision id' % what, r)
    if r['date'] is not None and rev is None:
        bad('%s: a date without a version' % what, r)


def known(r, what, version, dirty=False, date=ISO):
    if r['error'] is not None:
        bad('%s: error reported' % what, r)
    if isinstance(version, (set, tuple)):
        if r['version'] not in version:
            bad('%s: the version is not one of %s' % (what, sorted(version)), r)
    elif r['version'] != version:
        bad('%s: the version is not %r' % (what, version), r)
    if r['full-revisionid'] != SHA:
        bad('%s: the revision id is not the one of the tree' % what, r)
    d = truth_of(r['dirty'])
    if d is not dirty:
        bad('%s: the dirty flag is not %s' % (what, dirty), r)
    if r['date'] != date and not (isinstance(r['date'], str) and isinstance(date, str) and r['date'].replace(':', '') == date.replace(':', '')):
        bad('%s: the date is not that of the revision' % what, r)


@check('C30')
def c30(run):
    def both(name, mk, verdict):
        """The lookup, and importing the package, in one environment."""
        run.ob('lookup: ' + name, lambda: verdict(lookup(mk()), name))

        def imp():
            s = mk()
            r = None
            m = s.mod('occuprob')
            namespace(s, m)
            v = s.I.force(m.c.get('__version__', MISSING))
            if v is MISSING or not is_text(v):
                raise Viol('the package has no version text: %r' % (v,), 'occuprob')
            r = lookup(s)
            if v != r['version']:
                raise Viol('occuprob.__version__ is %r, not the version looked up, %r' % (v, r['version']), 'occuprob')
        run.ob('import: ' + name, imp)

    def namespace(s, m):
        for mod, names in API.items():
            for n in names:
                x = m.c.get(n, MISSING)
                if x is MISSING:
                    raise Viol('importing the package does not expose %s' % n, 'occuprob/__init__.py')
                y = s.mod(mod).c.get(n, MISSING)
                if y is MISSING:
                    raise AnchorMissing('%s.%s not found' % (mod, n))
                if x is not y:
                    raise Viol('occuprob.%s is %r instead of %s.%s' % (n, x, mod, n), 'occuprob/__init__.py')
                if not isinstance(x, (Cls, Fn, Native, Bound)):
                    raise Viol('occuprob.%s is %r' % (n, x), 'occuprob/__init__.py')

    miss = lambda r, w: unknown(r, w)
    # no version control at all
    errs = [('FileNotFoundError', 2), ('PermissionError', 13), ('NotADirectoryError', 20), ('OSError', 8), ('OSError', 12), ('BlockingIOError', 11)]
    for e in errs:
        both('git cannot be started (%s, error number %d)' % e, lambda e=e: session(no_git(e)), miss)
    both('git present, tree under no version control', lambda: session(not_a_repo), miss)
    both('git killed by a signal', lambda: session(lambda a, k: (-9, b'', b'')), miss)
    both('git answers nothing', lambda: session(lambda a, k: (1, b'', b'')), miss)
    for where in ('/usr/lib/python3/site-packages/occuprob', '/occuprob', '/a/occuprob', '/opt/occuprob-1.0/occuprob', '/x y/z.d/occuprob'):
        both('installed in %s without git' % where, lambda where=where: session(no_git(), where), miss)
        both('installed in %s, git present' % where, lambda where=where: session(not_a_repo, where), miss)
    both('no __file__ (frozen program)', lambda: session(no_git(), ''), miss)
    both('no __file__, git present', lambda: session(Git(), ''), miss)
    both('Windows without git', lambda: session(no_git(), platform='win32'), miss)

    # a checkout
    g = 'g5e0c2f1'
    outs = [('1.2-0-' + g, '1.2', False), ('1.2-0-%s-dirty' % g, '1.2+0.%s.dirty' % g, True), ('1.2-5-' + g, '1.2+5.' + g, False),
            ('1.2-5-%s-dirty' % g, '1.2+5.%s.dirty' % g, True), ('5e0c2f1', '0+untagged.17.' + g, False),
            ('5e0c2f1-dirty', '0+untagged.17.%s.dirty' % g, True), ('1.2+abc-3-' + g, '1.2+abc.3.' + g, False),
            ('1.0-rc-1-4-' + g, '1.0-rc-1+4.' + g, False), ('v2-12-' + g, 'v2+12.' + g, False), ('1.0-dirty-0-' + g, '1.0-dirty', False)]
    for d, v, dirty in outs:
        both('checkout, git describe says %s' % d, lambda d=d: session(Git(d)), lambda r, w, v=v, dirty=dirty: known(r, w, v, dirty))
    both('checkout with one commit', lambda: session(Git('5e0c2f1', count='1')), lambda r, w: known(r, w, '0+untagged.1.' + g))
    both('checkout, Windows', lambda: session(Git(), platform='win32'), lambda r, w: known(r, w, '1.2'))
    both('checkout, signed commits shown', lambda: session(Git(date='gpg: Good signature\n' + DATE)), lambda r, w: known(r, w, '1.2'))
    for b in ('feature/x', 'master', 'HEAD'):
        for c in ('* (HEAD detached at 5e0c2f1)\n  main\n  master', '* (no branch)', '* main', '* (HEAD detached at 5e0c2f1)', ''):
            if b != 'HEAD' and c:
                continue
            both('checkout on branch %s (%r)' % (b, c), lambda b=b, c=c: session(Git(branch=b, contains=c)), lambda r, w: known(r, w, '1.2'))
    for d in ('strange-output', '1.2-x-' + g, '-', 'tag-0-ghijk'):
        both('checkout, git describe says %r' % d, lambda d=d: session(Git(d)), lambda r, w: unknown(r, w, SHA) if r['full-revisionid'] else unknown(r, w))
    both('checkout, tag that is not UTF-8', lambda: session(Git(b'1.0-\xe9-0-' + g.encode())), lambda r, w: None)
    both('checkout, branch that is not UTF-8', lambda: session(Git(branch=b'\xe9')), lambda r, w: None)

    # one git command fails
    hows = [((128, b'', b'fatal: bad object\n'), 'fails'), ((1, b'partial\n', b''), 'fails after some output'), ((-9, b'', b''), 'is killed'),
            (('FileNotFoundError', 2), 'cannot be found'), (('PermissionError', 13), 'cannot be started'), (('OSError', 12), 'cannot be started for lack of memory')]
    for d in ('1.2-0-' + g, '5e0c2f1'):
        for kind in ('dir', 'describe', 'sha', 'branch', 'contains', 'count', 'date'):
            for how, txt in hows:
                if kind in ('contains',) or kind == 'count' and d != '5e0c2f1':
                    mkb = 'HEAD'
                else:
                    mkb = 'main'
                both('checkout, git describe says %s, but the command for %s %s' % (d, kind, txt),
                     lambda d=d, kind=kind, how=how, mkb=mkb: session(Git(d, branch=mkb, fail=kind, how=how)),
                     lambda r, w: None if r['error'] is None else unknown(r, w, r['full-revisionid'] if r['full-revisionid'] == SHA else None))

    # an exported archive
    arch = [('HEAD -> main, tag: 1.2.3, origin/main', '1.2.3'), ('tag: 0.1, tag: 0.2', ('0.1', '0.2')), ('HEAD, tag: 2.0rc1', '2.0rc1'),
            ('HEAD, 1.5, main', '1.5'), ('HEAD -> v1, tag: 1.0', '1.0'), ('tag: nightly, tag: 3.1', '3.1')]
    for refs, v in arch:
        for nm, prog in (('without git', no_git()), ('git present', not_a_repo), ('inside another checkout', Git(root='/work'))):
            both('archive of (%s), %s' % (refs, nm), lambda refs=refs, prog=prog: session(prog, archive=refs),
                 lambda r, w, v=v: known(r, w, v))
        both('archive of (%s), keywords without a date' % refs, lambda refs=refs: session(no_git(), archive=refs, dated=False),
             lambda r, w, v=v: known(r, w, v, date=None if r['date'] is None else ISO))
        both('archive of (%s), no __file__' % refs, lambda refs=refs: session(no_git(), '', archive=refs), lambda r, w, v=v: known(r, w, v))
    for refs in ('HEAD -> main', '', 'HEAD', 'tag: nightly', 'HEAD -> main, tag: stable, origin/main'):
        both('archive of an untagged revision (%s)' % refs, lambda refs=refs: session(no_git(), archive=refs), lambda r, w: unknown(r, w, SHA))
