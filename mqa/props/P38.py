"""The month counter is interpreted for every pattern of months with data in series of up to eight months (and for
patterns of up to three months in long series), and the whole wrapper program (command line, configuration, identifier
files, submitted job scripts) for every mode; chunks, their classes and the submitted jobs are compared with
reference definitions."""
import itertools
from ..equiv import *
from .. import env


def months(y, m, n):
    return [((12 * y + m - 1 + i) // 12, (12 * y + m - 1 + i) % 12 + 1) for i in range(n)]


def check(c):
    c.batch()
    th = c.thorough()
    for start in ((1999, 11), (2000, 1), (2003, 12)) if th else ((1999, 11), (2000, 1)):
        for n in range(1, 10 if th else 8):
            for gap in (1, 2, 3, 4, 6, 12):
                if gap > n + 1 and gap != 12:
                    continue
                counter(c, start, n, gap, list(range(n)))
    for n, gap in ((26, 11), (26, 12), (15, 3), (28, 13)):
        at = sorted({0, 1, gap - 1, gap, gap + 1, 2 * gap, n - 2 - gap, n - 1 - gap, n - gap, n - 2, n - 1} & set(range(n)))
        counter(c, (2001, 5), n, gap, at)
    for edge in ('all', 'standard', 'new', 'noend'):
        for n, gap in ((4, 1), (5, 2), (3, 3)):
            wrapper(c, (2003, 11), n, gap, edge, ['71514'])
        wrapper(c, (2003, 11), 3, 1, edge, ['71514', '61001  '])
    wrapper(c, (2003, 11), 2, 1, 'all', ['71514'])
    wrapper(c, (2003, 11), 2, 1, 'odd', ['71514'])
    wrapper(c, (1985, 1), 420, 3, 'standard', ['71514'], {}, [0, 3, 200, 416, 417])
    c.flush()
    c.need(len(c.instances), 50, 'instances')


def flags(n, free, name='data'):
    return AList([Lazy('%s%d' % (name, i), [False, True]) if i in free else False for i in range(n)])


def counter(c, start, n, gap, free):
    ms = months(start[0], start[1], n)

    def impl(run, a, k):
        o = run.call(run.module('YMCounter').ns['YMCounter'], [ms[0][0], ms[0][1], ms[-1][0], ms[-1][1]])
        for (y, m), f in zip(ms, flags(n, free).items):
            if run.truth(f):
                run.call_method(o, 'setym', [y, m, 1])
        return AList(run.iterate(run.call_method(o, 'yield_start_and_end_dates', [gap])))
    c.equiv('YMCounter.YMCounter.yield_start_and_end_dates', 'ymc.dates', lambda r: [], call=impl,
            spec_mk=lambda r: [AList([tuple(x) for x in ms]), flags(n, free), gap],
            name='%d months from %d-%02d, %d of them with or without data, gap %d' % (n, start[0], start[1], len(free), gap))


def wrapper(c, start, n, gap, edge, ids, args=None, at=None):
    ms = months(start[0], start[1], n)
    free = list(range(n)) if at is None else at
    runmonth = '%d%02d-%d%02d' % (ms[0] + ms[-1])

    def data(i):
        return flags(n, free, 'data %s ' % ids[i].strip())

    def config():
        cfg = env.install(Config())
        cfg.loop_cap = 2000
        queue = {}

        def output(run, a, k):
            run.asked = getattr(run, 'asked', 0) + 1
            full = run.force(Lazy('queue full', [False, True])) and run.asked == 1
            return ' hadjj \n' * (251 if full else 250)
        cfg.models['subprocess.check_output'] = output
        return cfg

    def impl(run, a, k):
        files = {}
        fl = [[run.truth(x) for x in data(i).items] for i in range(len(ids))]
        for j, (y, m) in enumerate(ms):
            files['/out/%d/%02d/ID_file.txt' % (y, m)] = ['%s,%s\n' % (x, x.strip()) for i, x in enumerate(ids) if fl[i][j]]
        files['/par'] = ['']
        a = dict(config='conf.txt', gap=gap, yr1=ms[0][0], mn1=ms[0][1], yr2=ms[-1][0], mn2=ms[-1][1], edge=edge)
        if args is not None:
            a = {'config': 'conf.txt'}
            a.update(args)
        run.world = env.World(args=a, cfg={('Directories', 'out_dir'): '/out', ('Directories', 'track_out_dir'): '/track',
                                           ('Files', 'parameter_file'): '/par'}, files=files,
                              json=lambda run, n: ADict([('runid', 'RUN')]))
        run.world.strict = True
        # directories of the output: there, partly there or to be made
        there = ['/track/TrackingQC', '/track/TrackingQC/logs', '/track/TrackingQC/jobs']
        run.world.dirs = ['/track'] + there[:run.force(Lazy('directories there', [0, 1, 2, 3])) if n == 2 or n == 3 else 0]
        run.call(lookup(run, 'Tracking_QC_wrapper.main'), [AList([])])
        return jobs(run)

    def jobs(run):
        out = []
        w = run.world
        for cmd in w.commands:
            if cmd.__class__ is not str or not cmd.startswith('sbatch '):
                out.append(('command', cmd))
                continue
            text = w.written.get(env.name_of(run, cmd[7:].strip()))
            if text is None or not all(x.__class__ is str for x in text):
                out.append(('no job file', cmd))
                continue
            for l in ''.join(text).split('\n'):
                if 'tracking_qc.py' in l:
                    words = l.split('>')[0].split()
                    opts, cur = {}, None
                    for x in words[words.index(next(y for y in words if 'tracking_qc.py' in y)) + 1:]:
                        if x.startswith('-'):
                            cur = x[1:]
                            opts[cur] = []
                        else:
                            opts[cur].append(x)
                    e = opts.pop('edge', [])
                    out.append((AList([(k, AList(v)) for k, v in sorted(opts.items())]), AList(e)))
        return AList(sorted(out, key=lambda x: vkey(x)))

    def ref(run, a, k):
        if edge == 'odd':
            raise PyExc('Exception', 'edge')
        o = run.call(lookup_spec(run, 'ymc.jobs'), [AList([tuple(x) for x in ms]),
                                                    AList([(x.strip(), data(i)) for i, x in enumerate(ids)]), gap, edge])
        out = []
        for name, y1, m1, y2, m2, cl in run.iterate(o):
            opts = dict(id=name, config='conf.txt', yr1=str(y1), mn1=str(m1), yr2=str(y2), mn2=str(m2), runmonthid=runmonth)
            out.append((AList([(k, AList([v])) for k, v in sorted(opts.items())]), cl))
        return AList(sorted(out, key=lambda x: vkey(x)))
    cfg = config()
    cfg.overrides['spec_any.anything'] = ref
    c.equiv('Tracking_QC_wrapper.main', 'any.anything', lambda r: [], cfg=cfg, call=impl, spec_mk=lambda r: [],
            name='wrapper over %d months, gap %d, edge %s, %d identifiers' % (n, gap, edge, len(ids)))

