# Stand-in for a program of the AVR tool chain: notes how it was called and
# which files existed, then runs the real program (KV_REAL) or leaves a file
# in place of its output.
import sys, os, json, subprocess
tool, args = os.path.basename(sys.argv[0]), sys.argv[1:]
e = dict(ev='run', tool=tool, opts=[], D=[], I=[], o='', only='', without='', format='')
e['in'] = []
i = 0
def value(a, n=2):
    """-X value or -Xvalue"""
    global i
    if len(a) > n: return a[n:]
    i += 1
    return args[i] if i < len(args) else ''
while i < len(args):
    a = args[i]
    if tool == 'avr-objcopy':
        if a[:2] == '-O': e['format'] = value(a)
        elif a[:2] == '-j': e['only'] = value(a)
        elif a[:2] == '-R': e['without'] = value(a)
        elif a == '--change-section-lma': i += 1; e['opts'] += [a, args[i]]
        elif a[:1] == '-': e['opts'].append(a)
        else: e['in'].append(a)
    elif a[:2] == '-D': e['D'].append(value(a))
    elif a[:2] == '-I': e['I'].append(value(a))
    elif a[:2] == '-o': e['o'] = value(a)
    elif a[:1] == '-' and a != '-': e['opts'].append(a)
    else: e['in'].append(a)
    i += 1
if tool == 'avr-objcopy' and len(e['in']) == 2: e['o'] = e['in'][1]
e['have'] = [f for f in e['in'] if os.path.isfile(f)]
rc = 0
real = os.environ.get('KV_REAL', '')
if real and tool != 'avrdude':
    rc = subprocess.call(['/usr/bin/' + ('g++' if tool == 'cl' else tool)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
elif e['o'] and all(f in e['have'] for f in e['in'][:1]):
    open(e['o'], 'w').write('made by ' + tool + '\n')
e['made'] = [e['o']] if rc == 0 and e['o'] and os.path.isfile(e['o']) and os.path.getsize(e['o']) else []
with open(os.environ['KV_LOG'], 'a') as f: f.write(json.dumps(e) + '\n')
sys.exit(rc)
