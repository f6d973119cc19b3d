"""Preparation of the data: the data directories describe the corpus, after
any interruption."""
import bz2
import gzip
import io
import os
import re
import shutil
import signal
import subprocess
import sys
import tarfile
import unicodedata
import yaml
from mc import cli

PROP = 'C38'
CHUNK = 1
BOUNDS = {
    'quick': '9 corpora (TIMIT lower and upper case, ALFFA, google_lr, mboshi '
             'with and without alignments, zrc2019 bzip2 and gzip, '
             'GlobalPhone) prepared and prepared again; union of 1..3 corpora '
             'x 4 limits; for each preparation, a crash before, after or in '
             'the middle of, or a failure of, every program started, then '
             'prepared again',
    'thorough': 'also every pair of interruptions of the short preparations',
}
ASSUMPTIONS = [
    'the corpora are small imitations of the real ones, in their format; the '
    'download and the Kaldi scripts of GlobalPhone are stand-ins',
    'the crash points are before and after each program started by the '
    'recipe, and in the middle of what it writes',
]

PROGRAMS = ('find awk cut sort uniq grep tr cat cp mv rm mkdir date ls sed '
            'paste perl git tar shuf touch chmod mktemp head').split()

SHIM = r'''#!/bin/bash
# Stand-in for a program of the system: a point of the history.
state=STATE
prog=PROG
call() {
    case $prog in
        python) REAL "$@";;
        git) /bin/mkdir -p "$(/usr/bin/dirname "${!#}")"
             /bin/cp -r CORPUS "${!#}";;
        mktemp) /usr/bin/mktemp -d $state/tmp.XXXX;;
        *) /usr/bin/$prog "$@";;
    esac
}
n=0
[ -f $state/n.$prog ] && read -r n < $state/n.$prog
lab="$prog#$((n + 1))"
echo $((n + 1)) > $state/n.$prog
echo $prog >> $state/log
if [ -s $state/fault ]; then
    { read -r fault; read -r mode; } < $state/fault
    if [ "$fault" = "$lab" ]; then
        echo hit > $state/hit
        if [ $mode = before ]; then
            kill -9 0
        elif [ $prog = python ]; then
            export CRASH=$mode
            call "$@" > $state/out
        elif [ $mode = after ]; then
            call "$@"
            kill -9 0
        elif [ $mode = fail ] && [ $prog != cp ]; then
            exit 2
        elif [ $prog = mv ]; then
            kill -9 0
        else
            call "$@" > $state/out
            case $prog in
                cp) /usr/bin/truncate -s 1 "${!#}";;
                tar|git) last=$(/usr/bin/find "${!#}" -type f |
                                /usr/bin/sort | /usr/bin/tail -1)
                         /bin/rm "$last";;
            esac
        fi
        if [ $mode = after ]; then
            /bin/cat $state/out
        else
            /usr/bin/head -c $(($(/usr/bin/stat -c %s $state/out) / 2)) \
                $state/out
        fi
        [ $mode = fail ] && exit 2
        kill -9 0
    fi
fi
case $prog in
    python|git|mktemp) call "$@";;
    *) exec /usr/bin/$prog "$@";;
esac
'''

# Interpreter stopped in the middle of the n-th file it writes.
PYTHON = r'''
import builtins, os, runpy, sys
mode = os.environ.get('CRASH', 'none')
target = {'mid': 1, 'mid2': 2, 'fail': 1}.get(mode, 0)
count = 0
real = builtins.open
class Out:
    def __init__(self, f, last):
        self.f, self.last = f, last
    def write(self, x):
        self.f.write(x)
        if self.last:
            self.f.flush()
            os._exit(1)
    def __enter__(self):
        self.f.__enter__()
        return self
    def __exit__(self, *a):
        return self.f.__exit__(*a)
    def __getattr__(self, x):
        return getattr(self.f, x)
def opened(path, how='r', *a, **k):
    global count
    f = real(path, how, *a, **k)
    if 'w' in how:
        count += 1
        return Out(f, count == target)
    return f
builtins.open = opened
sys.argv = sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
sys.path.append('PACKAGES')
runpy.run_path(sys.argv[0], run_name='__main__')
'''

MODES = ('before', 'mid', 'after', 'fail')
KINDS = ('timit-lower', 'timit-upper', 'alffa', 'google', 'mboshi',
         'mboshi-ali', 'zrc-bz2', 'zrc-gz', 'globalphone')
CRASHED = ('timit-lower', 'alffa', 'google', 'mboshi-ali', 'zrc-bz2',
           'globalphone', 'add')


def cases(tier):
    for kind in KINDS:
        yield {'k': 'run', 'kind': kind}
    for n in (1, 2, 3):
        for limit in (None, 0, 2, 100):
            yield {'k': 'add', 'n': n, 'limit': limit}
    for kind in CRASHED:
        for mode in MODES + ('mid2',):
            for part in range(8 if kind.startswith('timit') else 2):
                yield {'k': 'crash', 'kind': kind, 'mode': mode, 'part': part}
    if tier == 'thorough':
        for kind in CRASHED[1:]:
            for mode in MODES:
                for mode2 in MODES:
                    for part in range(4):
                        yield {'k': 'pairs', 'kind': kind, 'mode': mode,
                               'mode2': mode2, 'part': part}


class Place:
    'Scratch copy of the recipe, with its corpora.'

    def __init__(self, cx, kind):
        self.cx = cx
        self.kind = kind
        self.tmp = os.path.realpath(cx.tmpdir())
        cx.check('.' not in self.tmp, 'scratch directory')
        self.w = f'{self.tmp}/w'
        self.corpora = f'{self.tmp}/corpora'
        self.state = f'{self.tmp}/state'
        self.bin = f'{self.tmp}/bin'
        src = os.path.join(cli.REPO, 'recipes', 'aud')
        for d in ('local', 'utils'):
            shutil.copytree(f'{src}/{d}', f'{self.w}/{d}')
        for d in (self.corpora, self.state, self.bin):
            os.makedirs(d)
        # The corpora are in a directory of the authors.
        for base, _, names in os.walk(f'{self.w}/local'):
            for name in names:
                path = f'{base}/{name}'
                if name == 'prepare_data.sh':
                    with open(path) as f:
                        text = f.read()
                    with open(path, 'w') as f:
                        f.write(text.replace('/mnt/matylda2/data',
                                             self.corpora))
        with open(f'{self.state}/python', 'w') as f:
            f.write(PYTHON.replace('PACKAGES', os.path.dirname(
                os.path.dirname(yaml.__file__))))
        for name in PROGRAMS + ['python', 'python3']:
            with open(f'{self.bin}/{name}', 'w') as f:
                f.write(SHIM.replace('STATE', self.state).replace(
                    'PROG', name.rstrip('3'), 1).replace(
                    'REAL', f'{sys.executable} -S -E {self.state}/python')
                    .replace('CORPUS', f'{self.corpora}/mboshi'))
            os.chmod(f'{self.bin}/{name}', 0o755)
        self.expected = {}
        self.build()

    def put(self, path, text, exe=False):
        path = f'{self.tmp}/{path}'
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb' if isinstance(text, bytes) else 'w',
                  **({} if isinstance(text, bytes)
                     else {'encoding': 'utf-8'})) as f:
            f.write(text)
        if exe:
            os.chmod(path, 0o755)

    def build(self):
        kind, _, self.variant = self.kind.partition('-')
        self.commands = getattr(self, kind)()

    def execute(self, fault=None):
        'Exit status of the preparation, programs started.'
        for name in ('log', 'hit'):
            with open(f'{self.state}/{name}', 'w'):
                pass
        for name in os.listdir(self.state):
            if name.startswith('n.'):
                os.remove(f'{self.state}/{name}')
        with open(f'{self.state}/fault', 'w') as f:
            f.writelines(f'{x}\n' for x in fault or ())
        env = {'PATH': f'{self.bin}:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8',
               'HOME': self.tmp}
        code = 0
        with open(f'{self.tmp}/output', 'w') as out:
            for argv in self.commands:
                proc = subprocess.Popen(
                    ['bash'] + argv, cwd=self.w, env=env,
                    stdin=subprocess.DEVNULL, stdout=out,
                    stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    code = proc.wait(120)
                finally:
                    try:
                        os.killpg(proc.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                if code:
                    break
        with open(f'{self.state}/log') as f:
            names = f.read().split()
        count = {}
        labels = []
        for x in names:
            count[x] = count.get(x, 0) + 1
            labels.append(f'{x}#{count[x]}')
        self.cx.step(len(labels))
        return code, labels

    def hit(self):
        return os.path.getsize(f'{self.state}/hit') > 0

    def output(self):
        with open(f'{self.tmp}/output', errors='replace') as f:
            return f.read()[-1500:]

    def complete(self, what):
        code, labels = self.execute()
        self.cx.check(code == 0, f'{what}: status {code}: {self.output()}')
        self.verify(what)
        return labels

    def verify(self, what):
        for path, want in sorted(self.expected.items()):
            full = f'{self.w}/{path}'
            self.cx.check(os.path.isfile(full), f'{path} missing, {what}')
            with open(full, encoding='utf-8') as f:
                got = f.read()
            if callable(want):
                want(got, f'{path}, {what}')
            elif isinstance(want, dict):
                self.cx.same(table(self.cx, got, path, what), want,
                             f'{path}, {what}')
            else:
                self.cx.same(sorted(got.split('\n')[:-1]), sorted(want),
                             f'{path}, {what}')

    def save(self):
        self.saved = f'{self.tmp}/saved'
        shutil.copytree(self.w, self.saved, symlinks=True)
        shutil.copytree(self.corpora, self.saved + '-corpora')

    def reset(self):
        for d, s in ((self.w, self.saved),
                     (self.corpora, self.saved + '-corpora')):
            shutil.rmtree(d)
            shutil.copytree(s, d, symlinks=True)

    # -- corpora ---------------------------------------------------------
    def timit(self):
        upper = self.variant == 'upper'

        def case(x):
            return x.upper() if upper else x
        conf = os.path.join(cli.REPO, 'recipes/aud/local/timit')
        speakers = {}
        for x in ('dev', 'test'):
            with open(f'{conf}/{x}_spk.list') as f:
                speakers[x] = f.read().split()
        columns = []
        with open(f'{conf}/phones.60-48-39.map') as f:
            columns = [x.split() for x in f]
        phones = [x[0] for x in columns]
        to48 = {x[0]: x[1] for x in columns if len(x) == 3}
        sets = {'train': [('train', 'dr1', 'fcjf0'), ('train', 'dr8', 'mbcg0')],
                'dev': [('test', 'dr2', speakers['dev'][1])],
                'test': [('test', 'dr1', speakers['test'][-1])],
                None: [('test', 'dr4', 'fxyz0')]}
        n = 0
        for name, spks in sets.items():
            utts, trans, ali, wavs = [], {}, {}, {}
            for path in spks:
                for utt in ('sa1', 'sx127', 'si648'):
                    n += 1
                    d = '/'.join(case(x) for x in path)
                    base = f'corpora/TIMIT/timit/{d}/{case(utt)}'
                    length = 3 + n % 5
                    seq = [phones[(7 * n + 13 * i) % len(phones)]
                           for i in range(length)]
                    seq = ['h#'] + seq + (['q'] if n % 2 else []) + ['h#']
                    ends = []
                    t = 0
                    for i, p in enumerate(seq):
                        # Some phones are shorter than a frame.
                        t += 61 if i % 4 == 1 else \
                            37 * (i + 3) * (n % 4 + 3)
                        ends.append(t)
                    starts = [0] + ends[:-1]
                    self.put(base + case('.phn'), ''.join(
                        f'{a} {b} {p}\n'
                        for a, b, p in zip(starts, ends, seq)))
                    self.put(base + case('.wav'), 'RIFF\n')
                    self.put(base + case('.txt'), '0 100 Some words.\n')
                    if utt.startswith('sa'):
                        continue
                    u = f'{case(path[2])}_{case(utt)}'
                    utts.append(u)
                    wavs[u] = ('sph2pipe -f wav '
                               f'{self.tmp}/{base}{case(".wav")} |').split()
                    trans[u] = [to48[p] for p in seq if p in to48]
                    ali[u] = [p for a, b, p in zip(starts, ends, seq)
                              for _ in range(b * 100 // 16000
                                             - a * 100 // 16000)]
            if name is not None:
                self.expected.update({
                    f'data/timit/{name}/uttids': utts,
                    f'data/timit/{name}/wav.scp': wavs,
                    f'data/timit/{name}/trans': trans,
                    f'data/timit/{name}/ali': ali})
        full = [x for x in columns if len(x) == 3]
        silent = ('sil', 'epi')
        self.expected.update({
            'data/timit/lang/units':
                {x[1]: ['non-speech-unit' if x[1] in silent
                        else 'speech-unit'] for x in full},
            'data/timit/lang/phones_48_to_39.txt':
                {x[1]: [x[2]] for x in full},
            'data/timit/lang/phones_61_to_39.txt':
                {x[0]: x[2:] for x in columns},
            'data/timit/lang/phones_39.txt':
                lambda got, what: self.numbered(
                    got, {x[2] for x in full}, what)})
        return [['local/timit/prepare_data.sh', 'data/timit']]

    def numbered(self, got, names, what):
        t = table(self.cx, got, 'phones', what)
        self.cx.same(set(t), names, what)
        self.cx.same(sorted(int(x) for x, in t.values()),
                     list(range(len(names))), what)

    def units(self, path, langpath, trans, prefix):
        '''Checks of the symbols given to the phones: the trans file uses one
        symbol for each phone.'''
        def symbols(what):
            with open(f'{self.w}/{langpath}', encoding='utf-8') as f:
                t = table(self.cx, f.read(), langpath, what)
            out = {k: v[0] for k, v in t.items()}
            self.cx.same(len(set(out.values())), len(out),
                         f'distinct symbols, {what}')
            for k, v in out.items():
                self.cx.check(k == 'sil' or v.startswith(prefix),
                              f'symbol {v}, {what}')
            return out

        def check_trans(got, what):
            sym = symbols(what)
            missing = {p for seq in trans.values() for p in seq
                       if p != 'sil'} - set(sym)
            self.cx.same(missing, set(), f'phones without symbol, {what}')
            self.cx.same(table(self.cx, got, path, what), {
                u: [p if p == 'sil' else sym[p] for p in seq]
                for u, seq in trans.items()}, what)

        def check_units(got, what):
            sym = symbols(what)
            self.cx.same(table(self.cx, got, path, what), {
                'sil': ['non-speech-unit'],
                **{sym[p]: ['speech-unit'] for seq in trans.values()
                   for p in seq if p != 'sil'}}, what)
        return check_trans, check_units

    def alffa(self):
        root = 'corpora/ALFFA'
        out = 'data/alffa'
        for lang, style, lexdir in (
                ('swahili', 'broadcastnews', 'lang'),
                ('wolof', 'readspeech', 'lang_o3g_LengthContrast')):
            base = f'{root}/data_{style}_{lang}'
            lex = {'na': ['n', 'a'], 'kwa': ['k', 'w', 'a'], 'si': ['s', 'i'],
                   'wao': ['w', 'a', 'sila', 'o'], '<UNK>': ['SIL'],
                   'ng\u2019ombe': ['\u014b', 'o', 'm', 'b', 'e']}
            if lang == 'wolof':
                lex = {k + 'x': [p + '2' for p in v] if k != '<UNK>' else v
                       for k, v in lex.items() if k != '<UNK>'}
            self.put(f'{base}/{lexdir}/lexicon.txt', ''.join(
                f'{k}\t{" ".join(v)}\n' for k, v in lex.items()))
            if lang == 'swahili':
                self.put(f'{base}/{lexdir}/nonsilence_phones.txt', ''.join(
                    f'{p}\n' for p in sorted(
                        {p for v in lex.values() for p in v} - {'SIL'})))
            words = list(lex)
            for subset in ('train', 'test'):
                utts = [f'{lang}-{i}_{subset}_{j}' for i in range(3)
                        for j in (1, 11)]
                if subset == 'train':
                    utts = utts[:-1]
                text, trans, wavs = '', {}, {}
                for i, u in enumerate(utts):
                    seq = [words[(i + k * (i + 1)) % len(words)]
                           for k in range(i % 3 + 1)]
                    if i == 3:
                        seq.insert(1, 'unknown')
                    text += f'{u} {" ".join(seq)}\n'
                    d = f'{base}/data/{subset}/spk{i % 2}'
                    self.put(f'{d}/{u}.wav', 'RIFF\n')
                    if i == 3:
                        continue
                    trans[u] = ['sil'] + [p for w in seq for p in lex[w]
                                          if p != 'SIL'] + ['sil']
                    wavs[u] = [f'{self.tmp}/{d}/{u}.wav']
                self.put(f'{base}/data/{subset}/text', text)
                self.put(f'{base}/data/{subset}/other.wav', 'RIFF\n')
                d = f'{out}/{lang}'
                check_trans, check_units = self.units(
                    f'{d}/{subset}/trans', f'{d}/lang/phones.txt', trans,
                    f'{lang}_')
                self.expected.update({
                    f'{d}/{subset}/uttids': list(trans),
                    f'{d}/{subset}/wav.scp': wavs,
                    f'{d}/{subset}/trans': check_trans})
                if subset == 'train':
                    self.expected[f'{d}/lang/units'] = check_units
        return [['local/alffa/prepare_data.sh', out, 'swahili wolof']]

    def google(self):
        out = 'data/google'
        texts = {'yoruba': ['\u1eb9 k\u00e1a\u0300r\u1ecd\u0301, [breath] '
                            'gbogbo \u00c0gb\u00e0.', '[noise] ni, b\u0323o\u0301 '
                            '[snap] [breath] gb', 'a b-c bg'],
                 'igbo': ['nn\u1ecd\u0323', '[breath] gbara [x] * ga']}
        for lang, lines in texts.items():
            trans, wavs = {}, {}
            for i, line in enumerate(lines):
                part = ('male', 'female')[i % 2]
                u = f'{lang[:2]}{part[0]}_0{i}'
                d = f'corpora/google_lr/{lang}/{part}'
                wav = f'{d}/{u}.wav'
                self.put(wav, 'RIFF\n')
                index = f'{self.tmp}/{d}/line_index.tsv'
                old = open(index, encoding='utf-8').read() \
                    if os.path.exists(index) else ''
                self.put(f'{d}/line_index.tsv', f'{old}{u}\t{line}\n')
                seq = []
                for word in line.split():
                    if word[0] == '[':
                        if seq and seq[-1] != 'sil':
                            seq.append('sil')
                    else:
                        seq += letters(word)
                trans[u] = ['sil'] + seq + ['sil']
                wavs[u] = [f'{self.tmp}/{wav}']
            self.put(f'corpora/google_lr/{lang}/male/extra.wav', 'RIFF\n')
            # The recordings are often links to another disk.
            os.makedirs(f'{self.tmp}/disk', exist_ok=True)
            os.rename(f'{self.tmp}/corpora/google_lr/{lang}/male',
                      f'{self.tmp}/disk/{lang}')
            os.symlink(f'{self.tmp}/disk/{lang}',
                       f'{self.tmp}/corpora/google_lr/{lang}/male')
            d = f'{out}/{lang}'
            check_trans, check_units = self.units(
                f'{d}/train/trans', f'{d}/lang/phones.txt', trans,
                f'{lang}_')
            self.expected.update({
                f'{d}/train/uttids': list(trans),
                f'{d}/train/wav.scp': wavs, f'{d}/train/trans': check_trans,
                f'{d}/lang/units': check_units})
        # A language may be added afterwards.
        return [['local/google_lr/prepare_data.sh', out, 'yoruba'],
                ['local/google_lr/prepare_data.sh', out, 'yoruba igbo']]

    def mboshi(self):
        base = 'corpora/mboshi'
        self.put(f'{base}/script/fix_wav.sh',
                 '#!/bin/bash\n/bin/cp "$1" "$2"/\n')
        ali = ''
        for x, n in (('train', 5), ('dev', 3)):
            utts, wavs, alis = [], {}, {}
            for i in range(n):
                u = f'abiayi_2015-09-08_{x}_{"1" * (i + 1)}'
                if i % 2:
                    u = f'{utts[-1]}-b'
                self.put(f'{base}/full_corpus_newsplit/{x}/{u}.wav', 'RIFF\n')
                utts.append(u)
                wavs[u] = [f'data/mboshi/local/mboshi/full_corpus_newsplit/'
                           f'{x}.fixed/{u}.wav']
                alis[u] = [f'p{k % (i + 2)}' for k in range(i + 4)]
            for u, seq in alis.items():
                ali += f'{u} {" ".join(seq)}\n'
            ali += f'{utts[0]}-c c c c\n'
            self.expected.update({
                f'data/mboshi/{x}/uttids': utts,
                f'data/mboshi/{x}/wav.scp': wavs})
            if self.variant:
                self.expected[f'data/mboshi/{x}/ali'] = alis
        if self.variant:
            self.put('w/local/mboshi/mboshi.ali', ali)
        return [['local/mboshi/prepare_data.sh', 'data/mboshi']]

    def zrc(self):
        raw = io.BytesIO()
        wavs = {}
        with tarfile.open(fileobj=raw, mode='w') as tar:
            for i in range(5):
                u = f'A{"0" * i}1'
                data = b'RIFF'
                info = tarfile.TarInfo(f'samples/d{i % 2}/{u}.wav')
                info.size = len(data)
                tar.addfile(info, io.BytesIO(data))
                wavs[u] = [f'data/zrc/local/samples/d{i % 2}/{u}.wav']
            info = tarfile.TarInfo('samples/README')
            tar.addfile(info)
        pack = bz2 if self.variant == 'bz2' else gzip
        self.put('w/samples.tar.bz2', pack.compress(raw.getvalue()))
        self.expected = {'data/zrc/train/uttids': list(wavs),
                         'data/zrc/train/wavs.scp': wavs}
        return [['local/zrc2019/prepare_data.sh', 'data/zrc']]

    def globalphone(self):
        root = 'corpora/GLOBALPHONE'
        for lang in ('CZ', 'FR'):
            base = f'{root}/{lang}'
            lex = {'dom': ['d', 'o', 'm'], 'les': ['l', 'e'], 'a': ['a']}
            phones = sorted({p for v in lex.values() for p in v}) + ['z']
            d = f'{base}/local/dict'
            self.put(f'{d}/lexicon.txt', ''.join(
                f'{k} {" ".join(v)}\n' for k, v in lex.items()))
            self.put(f'{d}/silence_phones.txt', 'sil\n')
            self.put(f'{d}/nonsilence_phones.txt',
                     ''.join(f'{p}\n' for p in phones))
            self.expected[f'data/gp/{lang}/lang/units'] = {
                'sil': ['non-speech-unit'],
                **{f'{lang}_{p}': ['speech-unit'] for p in phones}}
            for x in ('dev', 'eval', 'train'):
                text = scp = ''
                trans, wavs = {}, {}
                words = list(lex)
                for i in range(5):
                    u = f'{lang}{x}_{"1" * (i // 2 + 1)}' + '-b' * (i % 2)
                    seq = [words[(i + k) % 3] for k in range(i % 3 + 1)]
                    if i in (1, 4):
                        seq.append('missing')
                    text += f'{u} {" ".join(seq)}\n'
                    wav = f'sox /x/{u}.shn -t wav - |'
                    scp += f'{u} {wav}\n'
                    if i in (1, 4):
                        continue
                    trans[u] = ['sil'] + [f'{lang}_{p}' for w in seq
                                          for p in lex[w]] + ['sil']
                    wavs[u] = wav.split()
                self.put(f'{base}/{x}/text', text)
                self.put(f'{base}/{x}/wav.scp', scp)
                name = {'eval': 'test'}.get(x, x)
                self.expected.update({
                    f'data/gp/{lang}/{name}/uttids': list(trans),
                    f'data/gp/{lang}/{name}/wav.scp': wavs,
                    f'data/gp/{lang}/{name}/trans': trans})
        for name in ('gp_data_prep.sh', 'gp_dict_prep.sh'):
            self.put(f'w/local/globalphone/{name}', '#!/bin/bash\n'
                     '/bin/mkdir -p data\n'
                     f'/bin/cp -r {self.tmp}/{root}/* data/\n', exe=True)
        return [['local/globalphone/prepare_data.sh', 'data/gp', 'CZ FR']]

    def add(self):
        n, limit = (int(x) for x in (self.variant or '2-2').split('-'))
        lines = {}
        for c in range(n):
            units = {'sil': 'non-speech-unit', 'shared': 'speech-unit',
                     f'p{c}': 'speech-unit'}
            self.put(f'w/c{c}/lang/units', ''.join(
                f'{k} {v}\n' for k, v in units.items()))
            for x in ('train', 'dev', 'test'):
                if c == 1 and x == 'dev':
                    continue        # this corpus has no such set
                utts = [f'c{c}', f'c{c}-{x}', f'c{c}-{x}-1', f'c{c}-{x}-11',
                        f'c{c}-{x}-1-1'][:5 - 2 * (x == 'test')]
                wavs = {u: f'{u} /corpus/{u}.wav' for u in utts}
                trans = {u: f'{u} sil p{c} sil' for u in utts[::-1]}
                lines[c, x] = wavs, trans
                for name, rows in (('uttids', utts),
                                   ('wav.scp', wavs.values()),
                                   ('trans', trans.values())):
                    self.put(f'w/c{c}/{x}/{name}',
                             ''.join(f'{r}\n' for r in rows))

        def check(x, which):
            def verify(got, what):
                rows = got.split('\n')[:-1]
                ids = open(f'{self.w}/all/{x}/uttids').read().split()
                self.cx.same(len(set(ids)), len(ids), f'twice, {what}')
                want = []
                for (c, y), tables in lines.items():
                    if x != y:
                        continue
                    mine = set(ids) & set(tables[0])
                    self.cx.same(len(mine), min(limit, len(tables[0])),
                                 f'utterances of corpus {c}, {what}')
                    want += [u if which is None else tables[which][u]
                             for u in mine]
                self.cx.same(sorted(rows), sorted(want), what)
            return verify
        for x in ('train', 'dev', 'test'):
            for name, which in (('uttids', None), ('wav.scp', 0),
                                ('trans', 1)):
                self.expected[f'all/{x}/{name}'] = check(x, which)
        self.expected['all/lang/units'] = {
            'sil': ['non-speech-unit'], 'shared': ['speech-unit'],
            **{f'p{c}': ['speech-unit'] for c in range(n)}}
        opts = [] if limit == 1000000 else ['--max-utts', str(limit)]
        return [['utils/add_corpus.sh'] + opts + [f'c{c}', 'all']
                for c in range(n)]


def letters(word):
    'Phones of a word: letters with their marks, "gb" is one.'
    word = ''.join(a.lower() for a in word
                   if a.isalnum() or unicodedata.combining(a))
    out = []
    for a in word:
        if out and (unicodedata.combining(a) or (a == 'b' and
                                                 out[-1] == 'g')):
            out[-1] += a
        else:
            out.append(a)
    return [''.join(sorted(x)) for x in out]


def table(cx, text, path, what):
    out = {}
    for line in text.split('\n')[:-1]:
        cx.check(line.split() != [], f'empty line in {path}, {what}')
        key, *rest = line.split()
        cx.check(key not in out, f'{key} twice in {path}, {what}')
        out[key] = rest
    cx.check(text == '' or text.endswith('\n'), f'{path} truncated, {what}')
    return out


def interrupt(p, label, mode, what):
    code, _ = p.execute([label, mode])
    if not p.hit():
        return False
    if mode == 'fail':
        if code == 0:
            p.verify(f'status 0 after a failure, {what}')
    else:
        p.cx.same(code, -9, f'status, {what}')
    return True


def run(case, cx):
    if case['k'] == 'add':
        limit = 1000000 if case['limit'] is None else case['limit']
        kind = f'add-{case["n"]}-{limit}'
    else:
        kind = case['kind']
    p = Place(cx, kind)
    p.save()
    labels = p.complete(f'{kind} prepared')
    cx.state(kind, sorted(p.expected))
    if case['k'] in ('run', 'add'):
        p.complete(f'{kind} prepared again')
        cx.trace()
        cx.label('uninterrupted')
        return
    mode = case['mode']
    points = sorted(set(labels), key=lambda x: (x.split('#')[0],
                                                int(x.split('#')[1])))
    if mode == 'mid2':
        points = [x for x in points if x.startswith('python')]
    if mode == 'after' and cx.tier != 'thorough':
        # (elsewhere, it is the crash before the next one)
        points = [x for x in points if x == labels[-1] or
                  x.startswith(('mv', 'cp', 'python'))]
    parts = {c['part'] for c in cases(cx.tier) if c['k'] == case['k']
             and c['kind'] == kind}
    for label in points[case['part']::len(parts)]:
        if mode == 'mid' and label.startswith('mv#'):
            continue
        for label2 in (points if case['k'] == 'pairs' else [None]):
            p.reset()
            what = f'{kind}, {mode} {label}'
            if not interrupt(p, label, mode, what):
                continue
            if label2 is not None:
                what += f', {case["mode2"]} {label2}'
                if not interrupt(p, label2, case['mode2'], what):
                    continue
            p.complete(f'prepared after {what}')
            cx.state(what)
            cx.trace()
            cx.label(mode)
