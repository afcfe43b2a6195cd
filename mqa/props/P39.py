"""The functions that name input and background files are interpreted for every date and every state of the files in
question (there or not, empty or not), the reader of the list of bad identifiers for representative lines, and
compared with reference definitions."""
from ..equiv import *
from .. import env
from ..interp import mkstr

STUBS = [
    (['/a/YYYY/MMMM/'], ['x.YYYY-MMMM.gz']),
    (['/a/YYYY/MMMM', '/b/DDDD/'], ['xYYYYMMMMDDDD_MMMM.nc', 'y_YYYY.MMMM.DDDD-YYYY']),
    (['/a', '/b', '/c/MMMM'], ['x', 'YYYY', 'z_DDDD']),
    (['/a/'], ['x', 'y']), ([], []), (['/a/MMMMYYYY/', '/b'], ['DDDD.nc']),
]


def date(i):
    return Lazy(i, [None, integer(i, lo=1, hi=dict(year=9999, month=12, day=31)[i])])


def config():
    cfg = env.install(Config())

    def there(run, name):
        return run.force(Lazy('file %s' % name, [True, False]))

    def size(run, name):
        return integer('size of %s' % name, lo=0)

    def is_file(run, a, k):
        return there(run, env.name_of(run, a[0]))

    def filled(run, a, k):
        n = env.name_of(run, a[0])
        return run.truth(there(run, n)) and run.test(size(run, n).p, '!=')
    cfg.overrides['spec_files.is_file'] = is_file
    cfg.overrides['spec_files.filled_file'] = filled

    def world():
        w = env.World(is_file=there, size=size)
        w.environ['SCRATCH'] = '/scratch'
        return w
    cfg.world = world
    return cfg


def check(c):
    c.batch()
    for i, (dirs, names) in enumerate(STUBS):
        cfg = config()

        def mk(r, dirs=dirs, names=names, cfg=cfg):
            r.world = cfg.world()
            return [AList(list(dirs)), AList(list(names)), date('year'), date('month')]
        c.equiv('BackgroundField.icoads_filename_from_stub', 'files.icoads', mk, cfg=cfg, name='ICOADS file, stubs %d' % i)
        cfg = config()

        def mk(r, dirs=dirs, names=names, cfg=cfg):
            r.world = cfg.world()
            return [AList(list(dirs)), AList(list(names)), date('year'), date('month'), date('day')]

        def call(run, a, k):
            f = run.call(lookup(run, 'BackgroundField.get_background_filename'), a)
            src = to = None
            for cmd in run.world.commands:
                parts = cmd.parts if isinstance(cmd, S) else [cmd]
                flat = ''.join(p if isinstance(p, str) else '\0%d\0' % j for j, p in enumerate(parts))
                words = flat.replace('>', ' > ').replace('"', ' ').replace("'", ' ').split()
                ws = [mkstr([x if not j % 2 else parts[int(x)] for j, x in enumerate(w.split('\0'))]) for w in words]
                if len(ws) == 5 and words[0] == 'bunzip2' and words[1] in ('-c', '-kc', '-ck') and words[3] == '>' and src is None:
                    src, to = ws[2], ws[4]
                else:
                    return ('other command', cmd)
            return (f, src, to)
        c.equiv('BackgroundField.get_background_filename', 'files.background', mk, cfg=cfg, call=call,
                spec_mk=lambda r, mk=mk: mk(r) + ['/scratch'], name='background file, stubs %d' % i)
    LINES = [[], ['\n'], ['SHIP\n', '\n', 'A\n'], ['ABCDEFGH\n', 'ABCDEFGHI\n', 'ABCDEFGHIJKL\n'], ['SHIP   \n', '         \n', ' \n', 'LAST'],
             [' B C\n', 'TAB\t\n', 'CR\r\n', '123456789 \n', '0\n', 'SHIP\n', 'SHIP\n']]
    for i, lines in enumerate(LINES):
        def call(run, a, k):
            run.world = env.World(files={'/bad': list(run.iterate(a[0]))})
            return run.call(lookup(run, 'BackgroundField.process_bad_id_file'), ['/bad'])
        c.equiv('BackgroundField.process_bad_id_file', 'files.bad', lambda r, lines=lines: [AList(list(lines))], cfg=env.install(Config()),
                call=call, name='list of bad identifiers %d' % i)
    for v in ('2.5', '3.0', '2.5.1', '3', ''):
        c.equiv('BackgroundField.icoads_filename', 'files.release', lambda r, v=v: ['/ICOADS', integer('year', lo=1000, hi=9999), integer('month', lo=1, hi=12), v],
                name='file of release %r' % v)
    c.flush()
    c.need(len(c.instances), 23, 'instances')
