"""Engine self-test: symbolic string/bytes/number/set/dict/regex/file/database operations agree with CPython on the solver's witnesses."""
def plan(tier): return [dict(name='strings', fn='strings', params={}), dict(name='files', fn='files', params={}), dict(name='numbers', fn='numbers', params={})]

def strings(h):
    s = h.text('s', [0, 2, 3], ((32, 34), (46, 47), (97, 98), (228, 228)))
    h.obs('split', s.split('/')); h.obs('strip', s.strip()); h.obs('sw', s.startswith('/')); h.obs('low', s.lower())
    h.obs('enc', s.encode('utf8')); h.obs('find', s.find('a')); h.obs('rep', s.replace('a', 'xy')); h.obs('in', '/' in s)
    h.obs('join', ','.join(s.split('a'))); h.obs('part', s.partition('/')); h.obs('srt', sorted([s, 'a', '/']))
    h.obs('set', {s, 'a', 'b'}); h.obs('d', {s: 1}.get('aa', 2)); h.obs('eq', s == s[::-1])

def files(h):
    n = h.text('n', [1, 2], ((97, 98),)); c = h.content('c', 2)
    h.write(h.p('/d/') + n, c); h.write(h.p('/d/a'), b'other')
    h.obs('tree', h.tree(h.p('/d'))); h.obs('sha', h.sha(c) == h.sha(b'other'))

def numbers(h):
    i = h.int('i', -3, 3); x = h.real('x', 0, 4)
    h.obs('a', [i + 1, i * 2, i < 2, abs(i) > 1, i == 0, str(i)]); h.obs('x', [x < 2, x + 1, float(str(x)) == x])
