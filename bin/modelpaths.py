"""Turn the transitions a design model prints into a tree of calls that covers
each of them (or, beyond a limit, a sample of them): the shortest way to the
state a transition starts in, then the transition.

A model prints <<"E", state, "Op", object, <<args>>, state'>> for each
transition (workers 1, breadth first), states being numbers or strings."""
import random, re

EDGE = re.compile(r'^<<"E", ([^"\s]+|"[^"]*"), "(\w+)", (\d+), <<(.*?)>>, ([^"\s]+|"[^"]*")>>$')


def edges(out):
    # TLC breaks long lines; join until the closing bracket
    buf = None
    for line in out.splitlines():
        if buf is None:
            if not line.startswith('<<"E"') and not line.startswith('<< "E"'):
                continue
            buf = line
        else:
            buf += ' ' + line
        if buf.rstrip().endswith('>>') and buf.count('<<') == buf.count('>>'):
            s = re.sub(r'\s+', ' ', buf).replace('<< ', '<<').replace(' >>', '>>')
            buf = None
            m = EDGE.match(s)
            if not m:
                raise ValueError('unexpected transition: ' + s[:300])
            a = [int(x) for x in m.group(4).replace('<<', ' ').replace('>>', ' ').replace(',', ' ').split()]
            yield m.group(1), m.group(2), int(m.group(3)), a, m.group(5)


def tree(out, path, limit, seed):
    es = list(dict.fromkeys((a, b, c, tuple(d), e) for a, b, c, d, e in edges(out)))
    if not es:
        raise ValueError('the model printed no transitions')
    root = es[0][0]
    way = {root: None}           # state -> the edge that first reached it
    for i, e in enumerate(es):
        if e[4] not in way:
            way[e[4]] = i
    want = list(range(len(es)))
    r = random.Random(seed)
    if len(want) > limit:
        want = sorted(r.sample(want, limit))
    node = {}                    # edge of the spanning tree -> its line in the file
    lines = []

    def place(i):
        chain = []
        while i is not None and i not in node:
            chain.append(i)
            i = way.get(es[i][0], -1)
            if i == -1:
                raise ValueError('transition from a state not reached before')
        for i in reversed(chain):
            up = way[es[i][0]]
            lines.append((0 if up is None else node[up], es[i]))
            node[i] = len(lines)
    for i in want:
        place(i)
    with open(path, 'w') as f:
        for up, e in lines:
            f.write(' '.join([str(up), e[1], str(e[2])] + [str(x) for x in e[3]]) + '\n')
    return len(want)
