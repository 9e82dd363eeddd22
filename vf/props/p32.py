"""What becomes of the files found in the working directory, and which files a run leaves."""
from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr
from vf.props.p14 import watch_log

INFO = {
    'outside': 'contents of the plots; movies; failing file operations; names other than those listed',
    'assumptions': ['the file system does what it is told'],
}

OLD = ['glompo_manager_log.yml', 'trajectories.png', 'trajectories_log.png', 'opt1_parms.png', 'opt12_parms.png', 'glompo_log.h5']
ALIEN = ['notes.txt', 'glompo_manager_log.yml.bak', 'my_trajectories.png', 'trajectories.pdf', 'glompo_log.h5.old', 'x_opt1_parms.png',
         'glompo_log_2.h5', 'opt1_parms.txt']
STREAMS = 'glompo_optimizer_printstreams'


def files(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in d.rglob('*') if p.is_file() and 'checkpoints' not in p.parts}


def run(S):
    w, d = None, None
    scripts, vals = mgr.evals(S, 1, S.length('evaluations', 0, 1) if S.cfg.get('more') else 1, const=lambda i, j: S.float('f'))
    scripts[0] += [('wait',)]
    at = S.int('stop_at', 0, 3) if S.cfg.get('more') else 1
    resumed = S.cfg['resumed']
    over = S.flag('overwrite_existing')
    sf = S.length('summary_files', 0, 3)
    err = S.flag('interrupt') if S.cfg.get('more') else False

    def stop(c, man):
        if c >= at and err:
            raise KeyboardInterrupt()
        return c >= at
    w, m = mgr.setup(S, scripts, stop, vals)
    w.prompt = True
    w.naps = 0
    w.order = lambda kind, en, must: 0
    watch_log(w, m)
    plots = []
    L = env.module('glompo.core.optimizerlogger')
    w._set(L.BaseLogger, 'plot_trajectory', lambda self, title, *a, **k: (plots.append(str(title)), open(str(title), 'w').close()))
    m.summary_files = sf
    if sf < 3:
        m.opt_log = wd.reclog(w, sf > 1)
    m.overwrite_existing = over
    home = w.tmp
    if S.flag('directory_missing'):
        home = w.tmp / 'new' / 'one'
        m.working_dir = home
    else:
        for i, name in enumerate(OLD):
            if resumed and name == 'glompo_log.h5':
                continue
            if i < S.cfg['old'] and S.flag('has_' + name):
                (home / name).write_text('old')
        for name in ALIEN:
            (home / name).write_text('alien')
        (home / 'sub').mkdir()
        (home / 'sub' / 'glompo_manager_log.yml').write_text('alien')
        if S.flag('old_streams'):
            (home / STREAMS).mkdir()
            (home / STREAMS / 'printstream_0001.out').write_text('old')
    if resumed:  # a run which goes on: its log file stays
        w.persist()
        m.checkpoint_control = chk.control(S, w)
        m.checkpoint()
        m.checkpoint_control = None
        arch = chk.archives(w)[0]
        m = w.core.GloMPOManager.load_manager(arch, convergence_checker=w.checker)
        m.overwrite_existing = over
        vars(m).pop('checkpoint', None)
    before = files(home) if home.exists() else {}
    present = [n for n in OLD if n in before]
    try:
        m.start_manager()
        S.check(over or not present, 'old-results-refused')
    except FileExistsError:
        S.check(present and not over, 'refused-only-if-needed')
        S.check(files(home) == before, 'refused-untouched')
        S.check(not w.did('start'), 'refused-nothing-started')
        S.cover('refused')
        return
    after = files(home)
    for n, data in before.items():
        if n in present:
            continue
        if n.startswith(STREAMS):
            S.check((n in after) == (not present), 'old-streams')
        else:
            S.check(after.get(n) == data, 'others-untouched')
    new = {'glompo_manager_log.yml': sf > 0, 'trajectories': sf > 1, 'glompo_log.h5': sf > 2}
    S.check(('glompo_manager_log.yml' in after) == (sf > 0), 'summary-iff-asked')
    S.check(('glompo_log.h5' in after) == (sf > 2), 'log-iff-asked')
    pics = [n for n in after if n.startswith('trajectories') and n.endswith('.png')]
    S.check(len(pics) == (sf > 1), 'plot-iff-asked')
    S.check(not any(n.startswith('opt') and n.endswith('_parms.png') for n in after), 'old-plots-removed')
    S.check(all(after[n] != b'old' for n in after if not n.startswith(STREAMS)), 'old-results-removed')
    S.check(set(after) <= set(before) | set(new) | {'trajectories.png', 'trajectories_log.png'}, 'nothing-else-made')
    S.check(home.is_dir(), 'directory-made')
    S.cover('ran')
    if present:
        S.cover('removed')


def harnesses(tier):
    more = tier != 'quick'
    return [H('run', run, 'any of the files of an earlier run present', {'resumed': False, 'old': 6, 'more': more},
              must=['refused', 'ran', 'removed'], weight=2),
            H('resumed', run, 'any of the files of an earlier run present, run resumed', {'resumed': True, 'old': 6, 'more': more},
              must=['refused', 'ran', 'removed'])]
