"""Planted bugs: preparation of the data, ..."""
from seed import make

SHELL = '''
import os, re, shutil, subprocess, tempfile
TMP = os.path.realpath(tempfile.mkdtemp())
import atexit
atexit.register(shutil.rmtree, TMP)
W = TMP + '/w'
shutil.copytree('recipes/aud/local', W + '/local')
shutil.copytree('recipes/aud/utils', W + '/utils')
for d, _, names in os.walk(W + '/local'):
    for n in names:
        if n == 'prepare_data.sh':
            text = open(f'{d}/{n}').read()
            open(f'{d}/{n}', 'w').write(
                text.replace('/mnt/matylda2/data', TMP + '/corpora'))
BIN = TMP + '/bin'
os.makedirs(BIN)
os.symlink('/opt/venv/bin/python', BIN + '/python')
os.symlink('/opt/venv/bin/python', BIN + '/python3')

def put(path, text):
    path = f'{TMP}/{path}'
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)

def tool(name, text):
    """Stand-in for a program."""
    put(f'bin/{name}', '#!/bin/bash\\n' + text)
    os.chmod(f'{BIN}/{name}', 0o755)

def run(*argv):
    return subprocess.run(['bash', *argv], cwd=W, stdin=subprocess.DEVNULL,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                          start_new_session=True,
                          env={'PATH': BIN + ':/usr/bin:/bin', 'LC_ALL': 'C'}
                          ).returncode

def lines(path):
    with open(f'{W}/{path}') as f:
        return f.read().split('\\n')[:-1]

def timit(seq):
    for part, spk in (('train', 'fcjf0'), ('test', 'faks0'),
                      ('test', 'mdab0')):
        base = f'corpora/TIMIT/timit/{part}/dr1/{spk}/sx1'
        put(base + '.wav', '')
        put(base + '.phn', ''.join(f'{a} {b} {p}\\n' for a, b, p in seq))
'''

make('c38-ali-duration', 'C38', 'recipes/aud/local/timit/phone_ali.py',
 [("""            start = int(int(tokens[0]) * factor)
            end = int(int(tokens[1]) * factor)
            segmentation += [tokens[2]] * (end - start)
""", """            start, end = int(tokens[0]), int(tokens[1])
            segmentation += [tokens[2]] * int((end - start) * factor)
""")],
 'segments which are not a multiple of the frame shift',
 'the frames of the alignment drift: the boundaries after some segments are too early',
 SHELL + """
timit([(0, 150, 'h#'), (150, 310, 'aa'), (310, 480, 'b'), (480, 640, 'h#')])
assert run('local/timit/prepare_data.sh', 'data/timit') == 0
assert lines('data/timit/train/ali') == ['fcjf0_sx1 aa b b h#'], lines('data/timit/train/ali')
""")

make('c38-done-early', 'C38', 'recipes/aud/local/timit/prepare_data.sh',
 [("""mkdir -p $outdir/lang
python $conf""", """date > $outdir/.done
mkdir -p $outdir/lang
python $conf"""),
  ("""

date > $outdir/.done
echo "Data preparation succeeded"
""", """
echo "Data preparation succeeded"
""")],
 'an interruption while the list of the phones is prepared',
 'the next run skips the preparation: the directory of the language is never complete',
 SHELL + """
timit([(0, 1600, 'h#'), (1600, 3200, 'aa')])
tool('awk', '''case "$*" in
*'" "$3'*) kill -9 0;;
esac
exec /usr/bin/awk "$@"
''')
first = run('local/timit/prepare_data.sh', 'data/timit')
os.remove(BIN + '/awk')
assert run('local/timit/prepare_data.sh', 'data/timit') == 0
assert first == -9 or first == 0
assert 'aa aa' in lines('data/timit/lang/phones_61_to_39.txt')
""")

make('c38-lexicon-words', 'C38', 'recipes/aud/local/alffa/prepare_transcripts.py',
 [("""    phone_to_id = {}
    if not os.path.isfile(phone_to_id_file):
        for sent in lexicon.values():
            for phone in sent:
                if phone not in phone_to_id.keys():
                    phone_to_id[phone] = '_'.join([args.lang, str(len(phone_to_id) + 1)])
""", """    phone_to_id = {}
    if not os.path.isfile(phone_to_id_file):
        for sent in lexicon.values():
            first_id = len(phone_to_id) + 1
            for i, phone in enumerate(dict.fromkeys(sent)):
                if phone not in phone_to_id.keys():
                    phone_to_id[phone] = '_'.join([args.lang, str(first_id + i)])
""")],
 'a word with a known phone before two new ones, then a word with a new phone',
 'two phones get the same symbol',
 SHELL + """
base = 'corpora/ALFFA/data_readspeech_xx/'
put(base + 'lang/lexicon.txt', 'ab a b\\nacd a c d\\ne e\\n')
for x in ('train', 'test'):
    put(base + f'data/{x}/text', 'u1 ab acd e\\n')
    put(base + f'data/{x}/u1.wav', '')
assert run('local/alffa/prepare_data.sh', 'data', 'xx') == 0
sym = [x.split()[1] for x in lines('data/xx/lang/phones.txt')]
assert len(sym) == len(set(sym)) == 5, sym
""")

make('c38-google-noise', 'C38', 'recipes/aud/local/google_lr/prepare_transcripts.py',
 [("""                    if t and t[-1] != 'sil':
                        t.append('sil')
""", """                    t.append('sil')
""")],
 'an utterance which starts with a noise, or with two noises in a row',
 'the transcription has several silences in a row',
 SHELL + """
put('corpora/google_lr/yo/male/line_index.tsv', 'u1\\ta [x] [y] b\\n')
put('corpora/google_lr/yo/male/u1.wav', '')
run('local/google_lr/prepare_data.sh', 'data', 'yo')
t = lines('data/yo/train/trans')[0].split()
assert not any(a == b == 'sil' for a, b in zip(t, t[1:])), t
""")

make('c38-shared-speakers', 'C38', 'recipes/aud/local/timit/prepare_data.sh',
 [("""    find $rootdir/{$train_dir,$test_dir} -not \\( -iname 'SA*' \\) -iname '*.WAV' \\
""", """    find $rootdir/{$train_dir,$test_dir} -not \\( -name 'SA*' \\) -iname '*.WAV' \\
""")],
 'a corpus with names in lower case',
 'the recordings of the calibration sentences are in the lists, without transcription',
 SHELL + """
timit([(0, 1600, 'h#'), (1600, 3200, 'aa')])
put('corpora/TIMIT/timit/train/dr1/fcjf0/sa1.wav', '')
put('corpora/TIMIT/timit/train/dr1/fcjf0/sa1.phn', '0 1600 aa\\n')
run('local/timit/prepare_data.sh', 'data/timit')
assert lines('data/timit/train/uttids') == ['fcjf0_sx1'], lines('data/timit/train/uttids')
""")
