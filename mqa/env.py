"""A world for whole programs: command line, configuration, files, directories and commands, all inside the analysis.

Nothing is read or run: the models answer from tables given by the check and record what the program asks for."""
import re
from .equiv import *
from .interp import mkstr, Val, ExtV
from .models import to_str, Piece


class FileV(Val):
    def __init__(self, world, name, mode, lines=()):
        self.world, self.name, self.mode, self.lines, self.pos = world, name, mode, list(lines), 0
        self.closed = False

    def vkey(self):
        return 'file %s' % self.name

    def vsyms(self):
        return frozenset()

    def iterop(self, run):
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r

    def methop(self, run, name, a, k):
        if name == 'readline':
            if self.pos >= len(self.lines):
                return ''
            self.pos += 1
            return self.lines[self.pos - 1]
        if name == 'readlines':
            return AList(self.iterop(run))
        if name == 'read':
            return mkstr(self.iterop(run))
        if name == 'write':
            self.world.written.setdefault(self.name, []).append(a[0])
            return None
        if name == 'writelines':
            self.world.written.setdefault(self.name, []).extend(run.iterate(a[0]))
            return None
        if name == 'close':
            self.closed = True
            return None
        if name in ('flush',):
            return None
        if name in ('__enter__',):
            return self
        return NotImplemented


class World(object):
    """args: {option: value}; cfg: {(section, option): value}; files: {name: [line]}; dirs: names that exist"""

    def __init__(self, args=None, cfg=None, files=None, json=None, dirs=(), is_dir=None, is_file=None, size=None):
        self.args, self.cfg, self.files, self.json = args or {}, cfg or {}, files or {}, json
        self.dirs, self.is_dir, self.is_file, self.size = list(dirs), is_dir, is_file, size
        self.environ = {}
        self.strict = False         # whether directories have to exist before something is put into them
        self.written, self.commands, self.made, self.read, self.cfgfile = {}, [], [], [], None
        self.opened = []
        self.names = {}


def name_of(run, v):
    v = run.force(v)
    if isinstance(v, str):
        return re.sub('/+', '/', v)
    if v is None:
        return None
    v = canon(run, v)
    return re.sub('/+', '/', ''.join(p if isinstance(p, str) else '{%s}' % vkey(p) for p in v.parts)) if isinstance(v, S) else vkey(v)


def text_name(run, v):
    v = canon(run, v)
    return mkstr([re.sub('/+', '/', p) if isinstance(p, str) else p for p in v.parts]) if isinstance(v, S) else re.sub('/+', '/', v)


def canon(run, v):
    """text with constant pieces joined"""
    v = to_str(run, v)
    return v


def os_dirname(name):
    return name.rstrip('/').rsplit('/', 1)[0] or '/'


def cells(run, line):
    """comma separated cells of a line of text, quotation marks around a cell removed"""
    parts = line.parts if isinstance(line, S) else [line]
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            q = p.rstrip('\r\n') if p is parts[-1] else p
            for i, x in enumerate(q.split(',')):
                if i:
                    out.append([])
                if x:
                    out[-1].append(x)
        else:
            out[-1].append(p)
    res = []
    for c in out:
        if c and isinstance(c[0], str) and c[0].startswith('"') and isinstance(c[-1], str) and c[-1].endswith('"'):
            c = [c[0][1:]] + c[1:]
            c[-1] = c[-1][:-1]
        v = mkstr(c)
        res.append(v)
    return res


def install(cfg):
    def m(*names):
        def deco(f):
            for n in names:
                cfg.models[n] = f
            return f
        return deco

    @m('argparse.ArgumentParser')
    def parser(run, a, k):
        o = AObj(None, 'parser')
        opts = []

        def add(run, a, k):
            n = next(x for x in a if isinstance(x, str))
            dest = k.get('dest', n.lstrip('-').replace('-', '_'))
            d = k.get('default')
            if k.get('action') == 'store_true':
                d = k.get('default', False)
            elif k.get('action') == 'store_false':
                d = k.get('default', True)
            opts.append((dest, d, k))
            return None

        def parse(run, a, k):
            r = AObj(None, 'args')
            known = set()
            for dest, d, kw in opts:
                known.add(dest)
                v = run.world.args.get(dest, d)
                r.attrs[dest] = v
            extra = set(run.world.args) - known
            if extra:
                raise PyExc('SystemExit', 'unrecognized arguments %s' % sorted(extra))
            return r
        o.attrs['add_argument'] = PyFn('add_argument', add)
        o.attrs['parse_args'] = PyFn('parse_args', parse)
        return o

    @m('ConfigParser.ConfigParser', 'configparser.ConfigParser')
    def confparser(run, a, k):
        o = AObj(None, 'config')

        def read(run, a, k):
            run.world.cfgfile = a[0]
            return AList([a[0]])

        def get(run, a, k):
            if run.world.cfgfile is None:
                raise PyExc('NoSectionError')
            key = (name_of(run, a[0]), name_of(run, a[1]))
            if key not in run.world.cfg:
                raise PyExc('NoOptionError', '%s %s' % key)
            return run.world.cfg[key]
        o.attrs['read'] = PyFn('read', read)
        o.attrs['get'] = PyFn('get', get)
        return o

    @m('builtins.open', 'open', 'gzip.open', 'io.open', 'builtins.file')
    def fopen(run, a, k):
        w = run.world
        name = name_of(run, a[0])
        mode = run.force(a[1]) if len(a) > 1 else k.get('mode', 'r')
        if name is None:
            raise PyExc('TypeError', 'open(None)')
        w.names[name] = text_name(run, a[0])
        if 'w' in mode or 'a' in mode:
            if w.strict and not exists_in(run, os_dirname(name)):
                raise PyExc('IOError', 'no directory for ' + name)
            if 'w' in mode:
                w.written[name] = []
            else:
                w.written.setdefault(name, [])
            return FileV(w, name, mode)
        w.opened.append(name)
        if name in w.written:
            return FileV(w, name, mode, w.written[name])
        if name not in w.files:
            raise PyExc('IOError', 'no file ' + name)
        return FileV(w, name, mode, w.files[name])

    @m('json.load')
    def load(run, a, k):
        f = run.force(a[0])
        return run.world.json(run, f.name) if isinstance(f, FileV) else run.world.json(run, None)

    def exists_in(run, name, dirs=True):
        w = run.world
        if w.is_file is not None and run.truth(w.is_file(run, name)):
            return True
        if name in w.files or name in w.written:
            return True
        if dirs and w.is_dir is not None:
            return run.truth(w.is_dir(run, name))
        return dirs and (name in w.dirs or name.rstrip('/') in w.dirs)

    @m('os.path.exists')
    def exists(run, a, k):
        return exists_in(run, name_of(run, a[0]))

    @m('os.path.isfile')
    def isfile(run, a, k):
        return exists_in(run, name_of(run, a[0]), False)

    @m('os.stat')
    def stat(run, a, k):
        n = name_of(run, a[0])
        if not exists_in(run, n):
            raise PyExc('OSError', 'no file')
        o = AObj(None, 'stat')
        o.attrs['st_size'] = run.world.size(run, n)
        return o

    @m('os.path.getsize')
    def getsize(run, a, k):
        return stat(run, a, k).attrs['st_size']

    @m('item:os.environ')
    def environ(run, a, k):
        n = name_of(run, a[0])
        if n not in run.world.environ:
            raise PyExc('KeyError', n)
        return run.world.environ[n]

    @m('os.getenv', 'os.environ.get')
    def getenv(run, a, k):
        return run.world.environ.get(name_of(run, a[0]), a[1] if len(a) > 1 else None)

    @m('os.path.isdir')
    def isdir(run, a, k):
        n = name_of(run, a[0])
        return n not in run.world.files and exists_in(run, n)

    @m('os.makedirs')
    def makedirs(run, a, k):
        return mkdir(run, a, {'parents': True})

    @m('os.mkdir')
    def mkdir(run, a, k):
        n = name_of(run, a[0])
        if exists_in(run, n):
            raise PyExc('OSError', 'exists')
        if run.world.strict and not exists_in(run, os_dirname(n)):
            if k.get('parents'):
                mkdir(run, [os_dirname(n)], k)
            else:
                raise PyExc('OSError', 'no parent directory')
        run.world.made.append(n)
        run.world.dirs.append(n)
        return None

    @m('os.system')
    def system(run, a, k):
        run.world.commands.append(to_str(run, a[0]))
        return 0

    @m('subprocess.call', 'subprocess.check_call')
    def call(run, a, k):
        v = run.force(a[0])
        run.world.commands.append(mkstr(sum([[' ', x] for x in run.iterate(v)], [])[1:]) if isinstance(v, AList) else v)
        return 0

    @m('csv.DictReader')
    def dictreader(run, a, k):
        f = run.force(a[0])
        names = a[1] if len(a) > 1 else k.get('fieldnames')
        lines = [l for l in run.iterate(f)]
        if names is None:
            names = AList(cells(run, lines.pop(0)))
        names = [run.force(x) for x in run.iterate(names)]
        rows = []
        for l in lines:
            c = cells(run, l)
            if c == ['']:
                continue
            row = list(zip(names, c)) + [(n, None) for n in names[len(c):]]
            if len(c) > len(names):
                row.append((None, AList(c[len(names):])))
            d = ADict([])
            for n, v in row:
                run.dict_set(d, n, v)
            rows.append(d)
        return AList(rows)

    @m('csv.reader')
    def reader(run, a, k):
        return AList([AList(cells(run, l)) for l in run.iterate(run.force(a[0]))])

    @m('time.sleep')
    def sleep(run, a, k):
        return None

    @m('sys.exit')
    def sysexit(run, a, k):
        raise PyExc('SystemExit', 'exit')
    return cfg
