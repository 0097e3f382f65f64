import hashlib, os, shutil, tempfile
import matplotlib
matplotlib.use('Agg')
import logging
logging.getLogger('matplotlib').setLevel(logging.CRITICAL)
from driver import np, enc
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, PolyCollection
from matplotlib.figure import Figure
from active_subspaces.utils import plotters as P
TYPES = ['.eps', '.png', '.pdf', '.svg']
SIGS = [b'%!PS', b'\x89PNG', b'%PDF', b'<?xml']
KINDS = ['', 'evals_', 'subspace_', 'evecs_', 'ssp1_', 'ssp2_', 'zonotope_2d_']
LABELS = [None, 'testing', 'f of x', '', 'k=0.5']
TEXTS = ['', 'Index', 'Eigenvalues', 'Subspace dimension', 'Subspace distance', 'Eigenvector 1 components', 'Active variable', 'Active variable 1', 'Active variable 2']
FONT = {'weight': 'normal', 'size': 14}
REAL_SAVE = Figure.savefig


def code(s, lab):
    if s == lab: return 100
    for k in range(1, 5):
        if s == '%s, evec %d' % (lab, k): return 110 + k
    return TEXTS.index(s) if s in TEXTS else -1


def iscbar(ax):
    return ax.get_label() == '<colorbar>' or getattr(ax, '_colorbar', None) is not None


def content(fig, lab):
    """Everything drawn on a figure: rows of numbers per kind of artist."""
    r = dict(lines=[], fills=[], dots=[], segs=[], panels=[])
    axes = [a for a in fig.axes if not iscbar(a)]
    ncb = len(fig.axes) - len(axes)
    axes = [a for a in axes if len(a.lines) + len(a.collections) + len(a.patches) + len(a.images) > 0]
    for p, ax in enumerate(axes):
        col = [c for c in ax.collections if c.get_visible()]
        clim = (0, 0)
        for q, l in enumerate([l for l in ax.lines if l.get_visible()]):
            x, y = np.asarray(l.get_xdata(orig=False), float), np.asarray(l.get_ydata(orig=False), float)
            mark = l.get_marker() not in ('', ' ', None, 'None', 'none')
            ok = np.isfinite(x) & np.isfinite(y)
            r['lines'] += [[p, q, a, b, int(mark)] for a, b in zip(x[ok], y[ok])]
        for q, c in enumerate([c for c in col if isinstance(c, PolyCollection)]):
            for path in c.get_paths():
                r['fills'] += [[p, q, a, b] for a, b in np.asarray(path.vertices)]
        for c in col:
            if isinstance(c, PathCollection):
                off, arr = np.asarray(c.get_offsets(), float), c.get_array()
                arr = np.full(len(off), 1e5) if arr is None else np.asarray(arr, float).ravel()
                clim = c.get_clim()
                r['dots'] += [[p, a[0], a[1], v] for a, v in zip(off, arr)] if len(off) == len(arr) else [[p, 0, 0, 1e5]]
            elif isinstance(c, LineCollection):
                for s in c.get_segments():
                    r['segs'] += [[p, a[0], a[1], b[0], b[1]] for a, b in zip(s[:-1], s[1:])]
        asp = ax.get_aspect()
        r['panels'].append([p, code(ax.get_title(), lab), code(ax.get_xlabel(), lab), code(ax.get_ylabel(), lab), int(ax.get_yscale() == 'log') + 2 * int(ax.get_xscale() == 'log'),
                            int(asp == 'equal' or asp == 1.0)] + list(ax.get_xlim()) + list(ax.get_ylim()) + [ncb, 1, 1] + [v if v is not None else 0 for v in clim])
    return r, axes


def pixels(fig):
    fig.canvas.draw()
    return np.array(fig.canvas.buffer_rgba())


def seen(fig, groups):
    """Whether each group of artists shows in the picture."""
    full, res = pixels(fig), []
    for g in groups:
        for a in g: a.set_visible(False)
        res.append(not np.array_equal(full, pixels(fig)))
        for a in g: a.set_visible(True)
    return res


def visible(fig, r, axes):
    for p, ax in enumerate(axes):
        lines = list(ax.lines) + [c for c in ax.collections if isinstance(c, LineCollection)]
        main = ([lines] if lines else []) + [[c] for c in ax.collections if isinstance(c, PathCollection)]
        poly = [[c] for c in ax.collections if isinstance(c, PolyCollection)]
        s = seen(fig, main + poly)
        r['panels'][p][11] = int(all(s[:len(main)]))
        r['panels'][p][12] = int(all(s[len(main):]))


def digest(r):
    return hashlib.md5(repr(sorted(r.items())).encode()).hexdigest()


class Session(object):
    def __init__(self):
        plt.close('all')
        self.dir = tempfile.mkdtemp(dir='.')
        self.old = {}       # figure number -> digest

    def call(self, c, f):
        lab = LABELS[c.get('lab', 0)]
        lab = 'Output' if lab is None else lab
        before = set(plt.get_fignums())
        shown, saves, keep, nshow = {}, [], [], [0]

        def record():
            for n in plt.get_fignums():
                if n not in before and n not in shown:
                    fig = plt.figure(n)
                    r, axes = content(fig, lab)
                    shown[n] = (r, axes, fig)

        def show(*a, **k):
            nshow[0] += 1
            cur = plt.gcf().number if plt.get_fignums() else None
            record()
            if c.get('close'): plt.close('all')
            elif cur is not None: plt.figure(cur)

        def save(fig, fname, *a, **k):
            saves.append((os.path.abspath(str(fname)), digest(content(fig, lab)[0]), fig))
            return REAL_SAVE(fig, fname, *a, **k)
        here, oldshow = os.getcwd(), plt.show
        os.chdir(self.dir)
        raised = 0
        try:
            if os.path.isdir('figs'):
                for n in os.listdir('figs'): os.remove(os.path.join('figs', n))
            plt.show, Figure.savefig = show, save
            try:
                f()
            except Exception:
                raised = 1
            plt.show, Figure.savefig = oldshow, REAL_SAVE
            record()
            order = sorted(shown)
            files = []
            present = [os.path.abspath(os.path.join('figs', n)) for n in os.listdir('figs')] if os.path.isdir('figs') else []
            extra = [n for n in os.listdir('.') if n != 'figs']
            for path in present:
                name, kind, typ = os.path.basename(path), -1, 0
                for k in range(1, 7):
                    for t in range(4):
                        if name == KINDS[k] + lab + TYPES[t]: kind, typ = k, t
                fig, good = -1, 0
                for q, d, g in saves:
                    if q == path:
                        fig = [j for j, n in enumerate(order) if shown[n][2] is g]
                        fig = fig[0] if fig else -1
                        good = int(fig >= 0 and d == digest(shown[order[fig]][0]))
                with open(path, 'rb') as h: head = h.read(8)
                files.append([kind * 10 + typ, fig, int(good and kind >= 0 and head.startswith(SIGS[typ]))])
            files += [[-1, -1, 0] for _ in extra]
            if c.get('vis'):
                for n in order: visible(shown[n][2], shown[n][0], shown[n][1])
            same = all(n in plt.get_fignums() and digest(content(plt.figure(n), l)[0]) == d for n, (l, d) in self.old.items()) if not c.get('close') else True
            dirs = int(os.path.isdir('figs'))
        finally:
            plt.show, Figure.savefig = oldshow, REAL_SAVE
            os.chdir(here)
        x = {}
        for key, w in (('lines', 6), ('fills', 5), ('dots', 5), ('segs', 6), ('panels', 16)):
            rows = [[j] + row for j, n in enumerate(order) for row in shown[n][0][key]]
            x[key] = enc(np.array(rows, dtype=float).reshape(-1, w))
        x['files'] = enc(np.array(files, dtype=float).reshape(-1, 3))
        ticks = 0
        if order and shown[order[-1]][1] and c.get('inl'):
            ax, m = shown[order[-1]][1][-1], c.raw('W').shape[0]
            got = dict(zip([round(float(t), 6) for t in ax.get_xticks()], [t.get_text() for t in ax.get_xticklabels()]))
            ticks = int(all(got.get(k + 1.0) == 'x%d' % k for k in range(m)))
        if not c.get('close'):
            self.old.update({n: (lab, digest(content(plt.figure(n), lab)[0])) for n in order})
        else:
            self.old = {}
        return dict(i=dict(raised=raised, new=len(order), shown=nshow[0], nf=len(plt.get_fignums()), old=int(same), dir=dirs, ticks=ticks), x=x)


def ses(env):
    if 's' not in env: env['s'] = Session()
    return env['s']


def opts(c):
    return {} if c.get('o') == 0 else dict(opts=P.plot_opts(savefigs=bool(c.get('save')), figtype=TYPES[c.get('type', 0)]))


def kw(c):
    l = LABELS[c.get('lab', 0)]
    return {} if l is None else dict(out_label=l)


def arr(c, k):
    return c.arr(k) if c.has(k) else None


def op_evals(c, env):
    return ses(env).call(c, lambda: P.eigenvalues(c.arr('e'), e_br=arr(c, 'ebr'), **dict(kw(c), **opts(c))))


def op_errors(c, env):
    return ses(env).call(c, lambda: P.subspace_errors(c.arr('br'), **dict(kw(c), **opts(c))))


def op_evecs(c, env):
    inl = ['x%d' % k for k in range(c.raw('W').shape[0])] if c.get('inl') else None
    return ses(env).call(c, lambda: P.eigenvectors(c.arr('W'), W_br=arr(c, 'Wbr'), in_labels=inl, **dict(kw(c), **opts(c))))


def op_summary(c, env):
    return ses(env).call(c, lambda: P.sufficient_summary(c.arr('y'), c.arr('f'), **dict(kw(c), **opts(c))))


def op_zono(c, env):
    return ses(env).call(c, lambda: P.zonotope_2d_plot(c.arr('vert'), design=arr(c, 'des'), y=arr(c, 'y'), f=arr(c, 'f'), **dict(kw(c), **opts(c))))


def op_opts(c, env):
    s = ses(env)
    here = os.getcwd()
    os.chdir(s.dir)
    try:
        sv, ft = bool(c.get('save')), TYPES[c.get('type', 0)]
        o = P.plot_opts(savefigs=sv, figtype=ft)
        same = o['savefigs'] == sv and o['figtype'] == ft and isinstance(o['myfont'], dict)
        return dict(i=dict(same=int(same), dir=int(os.path.isdir('figs')), nf=len(plt.get_fignums())))
    finally:
        os.chdir(here)


def op_closeall(c, env):
    s = ses(env)
    plt.close('all')
    s.old = {}
    return dict(i=dict(dir=int(os.path.isdir(os.path.join(s.dir, 'figs'))), nf=0))


def op_rmfigs(c, env):
    s = ses(env)
    shutil.rmtree(os.path.abspath(os.path.join(s.dir, 'figs')), ignore_errors=True)
    return dict(i=dict(dir=0, nf=len(plt.get_fignums())))
