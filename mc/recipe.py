"""Execution of the real recipes with stand-ins for `beer` and `qsub`."""
import argparse
import json
import os
import runpy
import shutil
import signal
import subprocess
import sys
import zipfile
from mc import cli, recipe_sem as sem

HERE = os.path.dirname(os.path.abspath(__file__))

QSUB = r'''#!/bin/bash
# Stand-in for qsub: runs the tasks one by one, fails if any does.
tasks=""; out=/dev/null
while [[ "$1" == -* ]]; do
    case $1 in
        -cwd|-V|-h|-notify) shift;;
        -t) tasks=$2; shift; shift;;
        -o) out=$2; shift; shift;;
        *) shift; shift;;
    esac
done
export SGE_O_WORKDIR=$PWD
status=0
if [ -z "$tasks" ]; then
    bash "$@" > "$out" 2>&1 || status=1
else
    ids=$(seq ${tasks%-*} ${tasks#*-})
    [ -n "$QSUB_REVERSE" ] && ids=$(echo $ids | tr ' ' '\n' | tac)
    for i in $ids; do
        SGE_TASK_ID=$i bash "$@" > "${out/\$TASK_ID/$i}" 2>&1 || status=1
    done
fi
exit $status
'''

PROG = r'''#!/bin/bash
# Stand-in for a program of the system: a point of the history.
state=STATE
prog=PROG
lab="$prog > ${!#}"
lab=${lab//tmp.???/tmp.X}
n=$(grep -c -F -- "start"$'\t'"$lab#" $state/log)
lab="$lab#$((n + 1))"
printf 'start\t%s\n' "$lab" >> $state/log
if [ -s $state/fault ]; then
    { read -r fault; read -r mode; } < $state/fault
    if [ "$fault" = "$lab" ]; then
        [ $mode = fail ] && exit 1
        [ $mode = after ] && /usr/bin/$prog "$@"
        kill -9 0
    fi
fi
/usr/bin/$prog "$@"
code=$?
printf 'end\t%s\n' "$lab" >> $state/log
exit $code
'''

_spec = []


def spec():
    'Commands of the real program.'
    if not _spec:
        class Found(Exception):
            pass

        def parse_args(self, *a, **k):
            raise Found(self)
        old = argparse.ArgumentParser.parse_args
        argparse.ArgumentParser.parse_args = parse_args
        try:
            runpy.run_path(cli.SCRIPT, run_name='__main__')
        except Found as e:
            _spec.append(json.loads(json.dumps(sem.spec_of(e.args[0]))))
        finally:
            argparse.ArgumentParser.parse_args = old
    return _spec[0]


class Recipe:
    UTTS = ['u1', 'u2', 'u3-long-name', 'u4', 'u5']

    def __init__(self, tmp):
        self.tmp = tmp
        self.w, self.state, self.bin = (f'{tmp}/{x}' for x in
                                        ('w', 'state', 'bin'))
        src = os.path.join(cli.REPO, 'recipes')
        os.makedirs(self.w)
        for d in ('steps', 'utils'):
            shutil.copytree(f'{src}/aud/{d}', f'{self.w}/{d}')
        shutil.copytree(f'{src}/hshmm/kutils', f'{self.w}/kutils')
        shutil.copy(f'{src}/aud/path.sh', f'{self.w}/path.sh')
        os.makedirs(self.state)
        os.makedirs(self.bin)
        with open(f'{self.state}/spec', 'w') as f:
            f.write(repr(spec()))
        self.script('beer', f'#!/bin/bash\nexec {sys.executable} -S -E -s -c '
                    f'\'import sys; sys.argv[0:1] = ["beer", "{self.state}"]'
                    f'; sys.path.insert(0, "{HERE}"); import recipe_stub; '
                    f'sys.exit(recipe_stub.main())\' "$@"\n')
        for name in ('cp', 'mv', 'rm', 'zip', 'touch', 'sort'):
            self.script(name, PROG.replace('STATE', self.state).replace(
                'prog=PROG', f'prog={name}'))
        self.script('python', f'#!/bin/bash\nexec {sys.executable} "$@"\n')
        self.script('qsub', QSUB)
        self.script('activate', '')
        for name, text in {
                'conf.yml': 'the configuration\n', 'ds.pkl': 'the dataset\n',
                'lang/units': 'the units\n', 'ploop.mdl': 'a phone-loop\n',
                'model': 'a model\n', 'data/uttids':
                '\n'.join(self.UTTS) + '\n', 'data/trans':
                ''.join(f'{u} a b {i}\n' for i, u in enumerate(self.UTTS)),
                'data/wavs.scp': ''.join(f'{u} {u}.wav\n'
                                         for u in self.UTTS)}.items():
            self.put(name, text)

    def script(self, name, text):
        with open(f'{self.bin}/{name}', 'w') as f:
            f.write(text)
        os.chmod(f'{self.bin}/{name}', 0o755)

    def put(self, name, data):
        path = f'{self.w}/{name}'
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb' if isinstance(data, bytes) else 'w') as f:
            f.write(data)

    def run(self, name, *args, plan=None, reverse=False):
        'Exit status (-9 when killed) of a step of the recipe.'
        with open(f'{self.state}/plan', 'w') as f:
            f.write(repr(plan or {}))
        with open(f'{self.state}/log', 'w') as f:
            pass
        with open(f'{self.state}/fault', 'w') as f:
            f.writelines(f'{x}\n' for x in (plan or {}).get('fault', ()))
        env = dict(os.environ, PATH=f'{self.bin}:/usr/bin:/bin',
                   LC_ALL='C')
        env.pop('QSUB_REVERSE', None)
        if reverse:
            env['QSUB_REVERSE'] = '1'
        with open(f'{self.tmp}/output', 'w') as out:
            proc = subprocess.Popen(
                ['bash', f'steps/{name}.sh'] + [str(a) for a in args],
                cwd=self.w, env=env, stdin=subprocess.DEVNULL, stdout=out,
                stderr=subprocess.STDOUT, start_new_session=True)
            try:
                code = proc.wait(120)
            finally:
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        return code

    def output(self):
        with open(f'{self.tmp}/output') as f:
            return f.read()[-2000:]

    def events(self):
        if not os.path.exists(f'{self.state}/log'):
            return []
        with open(f'{self.state}/log') as f:
            return [x.rstrip('\n').split('\t') for x in f]

    def term(self, path):
        'Terms (strong, weak) of a file of the recipe.'
        path = f'{self.w}/{path}'
        return term(path) if os.path.isfile(path) else None


def term(path):
    if path.endswith('.npz'):
        try:
            return sem.read_zip(path)
        except sem.Failure:
            pass
    return sem.read(path)[:2]


class Reference:
    'The intended pipeline, executed by the abstract semantics.'

    def __init__(self, recipe, name='ref'):
        self.r = recipe
        self.dir = f'{recipe.tmp}/{name}'
        os.makedirs(self.dir)

    def path(self, x):
        return f'{self.dir}/{x}'

    def beer(self, *argv, stdin=''):
        'Arguments starting with "@" are files of the reference.'
        args = []
        for a in argv:
            a = str(a)
            if a.startswith('@'):
                a = self.path(a[1:])
            elif a.startswith('%'):
                a = f'{self.r.w}/{a[1:]}'
            args.append(a)
        out = []
        sem.execute(spec(), args, stdin, out.append)
        return ''.join(out)

    def zip(self, directory, out):
        with zipfile.ZipFile(self.path(out), 'w') as z:
            for n in sorted(os.listdir(self.path(directory))):
                z.write(self.path(f'{directory}/{n}'), n)

    def term(self, path):
        return term(self.path(path))
