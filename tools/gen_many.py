"""Writes harness/many.inc: structs whose lists take 1 to 64 places, the most the macros take (a marker takes a place of its own)."""
import os
o = []
for n in range(1, 65):
    ls = []; opt = []; key = []; room = n; i = 0
    while room:
        a = (i * 7 + n) % 5 == 0 and room > 1; room -= a
        b = (i * 3 + n) % 4 == 0 and room > 1; room -= b
        ls.append(('MEO_OPT ' if a else '') + ('MEO_KEY("k%d") ' % i if b else '') + 'm%d' % i); opt.append(str(int(a))); key.append('"%s%d"' % ('k' if b else 'm', i)); room -= 1; i += 1
    ms = ['m%d' % k for k in range(i)]
    o.append('struct M%d { static constexpr int size = %d; int %s; int* at(int i) { int* p[] = { %s }; return p[i]; } static bool opt(int i) { static const bool p[] = { %s }; return p[i]; } static std::string key(int i) { static const char* p[] = { %s }; return p[i]; }\n    MEO_JSONIZATION(%s) };'
             % (n, i, ', '.join(m + ' = 0' for m in ms), ', '.join('&' + m for m in ms), ', '.join(opt), ', '.join(key), ', '.join(ls)))
o.append('#define ALL_M(f) ' + ' '.join('f(%d)' % n for n in range(1, 65)))
open(os.path.join(os.path.dirname(__file__), '../harness/many.inc'), 'w').write('// written by tools/gen_many.py\n' + '\n'.join(o) + '\n')
