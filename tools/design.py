"""Rewrites the per-property section of DESIGN.md from the catalogue, the harnesses and the notes below (python3-vt tools/design.py)."""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root]
from catalogue import P, NA  # noqa: E402

#: property -> (what is executed, against which oracle)
HOW = {
    'P01': ('`start_manager` of the real manager in the closed world; values symbolic (reals, nan, ±inf)',
            'the minimum over the values taken from the queue so far, computed by the harness; each reported incumbent, its point and its origin'),
    'P02': ('the whole run; a watch on the queue sees every item taken off it',
            'counter = number of items taken; each item logged once, in order, with its point and details; killed/ended optimizers included'),
    'P03': ('the whole run with a symbolic number of slots and symbolic sizes of optimizers',
            'sum of workers of those whose process is alive ≤ slots; the number offered to the selector = exactly those free; ids 1,2,3…'),
    'P04': ('the whole run; hunter = a condition answering symbolically', 'only live optimizers other than the incumbent’s are tried, at the '
            'documented frequency; killed ⇔ the condition said so; victim told once with the reason'),
    'P05': ('the whole run, each optimizer ends in one of 7 ways at a chosen moment', 'exactly one outcome per optimizer, equal to what happened'),
    'P06': ('the whole run, faults at a symbolic operation index', 'returns in bounded steps, no live process, no optimizer paused, end condition true to what happened'),
    'P07': ('the whole run under a symbolic clock', 'terminated ⇔ (forced terminations on, process backend, silence > limit)'),
    'P08': ('the whole run', 'messages each optimizer received = all improvements by others while it ran, in order, nothing else'),
    'P09': ('the whole run; STOP_n, MANUAL, SHUTDOWN files appear at symbolic moments; checkpoint timing symbolic', 'reference schedule written from the documentation'),
    'P10': ('checkpoint during a run, all interleavings of optimizers with the pausing protocol', 'saved state = state at one moment; no result lost or doubled; run continues to the result it has without'),
    'P11': ('`checkpoint()` with a symbolic failing file operation', 'on disk afterwards: old set intact or new complete; retention keeps the newest n'),
    'P12': ('naming and recognising with symbolic text', 'reference parser of the 12 formats; numbers above existing; date of the moment'),
    'P13': ('run–checkpoint–load–run vs. the run without interruption', 'same incumbent, counters, history, outcomes, settings'),
    'P14': ('the same with a log file, killed or ended', 'log = that of an uninterrupted run with the same results'),
    'P15': ('each criterion on symbolic counters and clocks', 'documented condition'),
    'P16': ('all expression trees, leaves answering symbolically', 'reference short-circuit evaluation, text and iteration order'),
    'P17': ('each hunter on symbolic histories through the real logger', 'documented condition; probability bracketed for random ones'),
    'P18': ('the two space hunters', 'documented condition, distances compared without square roots'),
    'P19': ('each generator with nondeterministic random numbers', 'bounds[i][0] ≤ x[i] ≤ bounds[i][1]; length'),
    'P20': ('the two formula-based generators', 'documented formula, exact over the reals'),
    'P21': ('each selector under a symbolic request history', 'reference automaton'),
    'P22': ('set-up of each started optimizer', 'settings = a fresh copy of those configured; backend; pipes; queue'),
    'P23': ('the real queue over symbolic operation sequences', 'a list'),
    'P24': ('message handling of the base optimizer class', 'reference dispatcher; saved = restored'),
    'P25': ('random and CMA optimizers (cma is a stand-in)', 'best of evaluated; every evaluation within budget; stopping/injection honoured'),
    'P26': ('both loggers over symbolic operation sequences', 'dictionary of lists'),
    'P28': ('set-up and load with symbolic settings', 'documented validity; attribute by attribute'),
    'P31': ('the ParAMS interface (its packages are stand-ins)', 'documented transformations'),
    'P32': ('start of a run in a directory with old results', 'set of files afterwards'),
    'P35': ('order of outputs', 'what was written by whom vs. the contents of files and terminal'),
    'P33': ('ends of runs', 'summary/log/return value vs. what the world saw'),
}
NOTES = {}


def main():
    out = []
    for pid in sorted(P):
        p = P[pid]
        out.append(f"### {pid} {p['title']}\n")
        if pid in NA:
            out.append(f'Not applicable: {NA[pid]}\n')
            continue
        m = importlib.import_module('vf.props.' + pid.lower())
        what, oracle = HOW.get(pid, ('', ''))
        if what:
            out.append(f'Executed: {what}. Oracle: {oracle}.\n')
        q = {h.name: h.bounds for h in m.harnesses('quick')}
        out.append('Harnesses (bounds of the quick tier): ' + '; '.join(f'`{n}` {b}' for n, b in q.items()) + '.')
        out.append('Outside: ' + m.INFO['outside'] + '. Assumed: ' + '; '.join(m.INFO['assumptions']) + '.')
        out.append('Beyond the tests: ' + p['why'] + '\n')
    f = os.path.join(root, 'DESIGN.md')
    s = open(f).read()
    a, b = s.index('<!-- properties -->'), s.index('<!-- end properties -->')
    open(f, 'w').write(s[:a] + '<!-- properties -->\n' + '\n'.join(out) + s[b:])


main()


def seeded():
    import json
    d = os.path.join(root, 'seeded')
    rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        rows.append(f"| {n} | {m['property']} (reported by its check) | {m['what_it_breaks']} | {m['needs']} |")
    f = os.path.join(root, 'DESIGN.md')
    s = open(f).read()
    a, b = s.index('<!-- seeded -->'), s.index('<!-- end seeded -->')
    open(f, 'w').write(s[:a] + '<!-- seeded -->\n' + '\n'.join(rows) + '\n' + s[b:])


seeded()
