"""C01: no crash, no undefined behaviour, exit status 0 or 1."""
import chaos, vf
from common import *


def run():
    ck = vf.Check('C01', rule='hostile sessions (all commands, damaged commands, rubbish bytes, extreme operands, damaged rule files, switches, terminal) under '
                  'ASan+UBSan, a part of them again under MSan; distinct input lines', min_cases=2000)
    r = ck.rng
    cut = 0
    rounds = ck.n(4, 40)
    for rnd in range(rounds):
        ses = [chaos.session(r) for _ in range(900)]
        judge(ck, vf.run_sessions(ses, retry=False, stuck_ok=True), 'asan')
        if rnd % 2 == 0:
            judge(ck, vf.run_sessions(ses, driver=vf.msan_driver, retry=False, stuck_ok=True), 'msan')
    ck.samples = [repr(l)[:100] for l in ses[0].lines[:10]]
    if ck.counters.get('sessions_cut_off_by_budget', 0) * 5 > vf.STATS['sessions']:
        raise vf.HarnessError('many sessions were cut off')
    ck.finish()


def judge(ck, results, kind):
    for res in results:
        s = res.session
        for l in s.lines:
            ck.case(l)
        ck.count('sessions_' + kind)
        if res.budget_hit or res.timed_out:
            ck.count('sessions_cut_off_by_budget')
            continue
        if res.clean:
            ck.count('exit_%d' % res.exit_code)
            continue
        i = len(res.recs) - 1
        ck.violation('%s: %s after line %d %r' % (kind, res.describe(), i, s.lines[i] if 0 <= i < len(s.lines) else None), 'crash:' + repr(s.lines[:i + 1]), s)
