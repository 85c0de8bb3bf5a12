"""Replaces node-NN.so+0x... offsets in a crash report by function names and source lines."""
import re, subprocess, sys
PAT = re.compile(r'\((/\S+/node-\d+\.so)\+(0x[0-9a-f]+)\)|\b(node)\+(0x[0-9a-f]+)')


def parts(m, so):
    return (m.group(1), m.group(2)) if m.group(1) else (so, m.group(4))


def symbolize(text, node=None):
    so = '%s/node-00.so' % node
    want = {}
    for m in PAT.finditer(text):
        f, o = parts(m, so)
        want.setdefault(f, []).append(o)
    names = {}
    for f, offs in want.items():
        offs = sorted(set(offs))
        try:
            r = subprocess.run(['addr2line', '-fsC', '-e', f] + [hex(int(o, 16) - 1) for o in offs],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout.split('\n')
        except (OSError, subprocess.SubprocessError):
            continue
        for i, o in enumerate(offs):
            if 2 * i + 1 < len(r):
                names[(f, o)] = '%s %s' % (r[2 * i], r[2 * i + 1])
    return PAT.sub(lambda m: names.get(parts(m, so), m.group(0)), text)


if __name__ == '__main__':
    sys.stdout.write(symbolize(sys.stdin.read(), sys.argv[1] if len(sys.argv) > 1 else None))
