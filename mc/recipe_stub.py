"""Stand-in for the `beer` program: executes the abstract semantics, and stops
where the plan says so. Kept light: it is started thousands of times."""
import fcntl
import os
import sys
import time
import recipe_sem as sem


def main():
    state, argv = sys.argv[1], sys.argv[2:]
    with open(f'{state}/spec') as f:
        spec = eval(f.read())
    with open(f'{state}/plan') as f:
        plan = eval(f.read())
    lab = sem.label(spec, argv)
    i = lab.find('/tmp.')
    if i >= 0:
        lab = lab[:i] + '/tmp.X' + lab[i + 8:]
    n = 1 + sum(x[0] == 'start' and x[1].rpartition('#')[0] == lab
                for x in events(state))
    lab = f'{lab}#{n}'
    # Order of the commands which run at the same time.
    turn = plan.get('turns', {}).get(lab)
    if turn:
        for _ in range(500):
            if turn in [x[1] for x in events(state) if x[0] != 'start']:
                break
            time.sleep(.01)
    log(state, 'start', lab)
    fault = plan.get('fault')
    if fault and fault[0] == lab:
        if fault[1] == 'fail':
            log(state, 'failed', lab)
            sys.stderr.write('ERROR: failed\n')
            return 1
        if fault[1] == 'before':
            os.killpg(os.getpgrp(), 9)
        run(spec, argv, state, lab, plan)
        os.killpg(os.getpgrp(), 9)
        time.sleep(10)
    return run(spec, argv, state, lab, plan)


def events(state):
    if not os.path.exists(f'{state}/log'):
        return []
    with open(f'{state}/log') as f:
        return [x.rstrip('\n').split('\t') for x in f]


def run(spec, argv, state, lab, plan):
    if plan.get('real'):            # the real program
        code = os.spawnv(os.P_WAIT, plan['real'][0], plan['real'] + argv)
        log(state, 'end' if code == 0 else 'error', lab)
        return code
    stdin = ''
    name = ' '.join([a for a in argv if not a.startswith('-')
                     and not a.isdigit()][:2])
    if name in ('hmm accumulate', 'hmm update', 'hmm decode',
                'hmm posteriors', 'hmm mkaligraph', 'features extract'):
        stdin = sys.stdin.read()
    try:
        sem.execute(spec, argv, stdin, sys.stdout.write)
        sys.stdout.flush()
    except sem.Failure as e:
        sys.stderr.write(f'ERROR: {e}\n')
        log(state, 'error', f'{lab}: {e}')
        return 1
    log(state, 'end', lab)
    return 0


def log(state, kind, lab):
    with open(f'{state}/log', 'a') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(f'{kind}\t{lab}\n')
