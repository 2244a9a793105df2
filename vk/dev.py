import sys; sys.path.insert(0, '/verif/vk')
from core import *
import props
# dev.py C01 [name substring]: runs the units of a property and prints every result
if __name__ == '__main__':
    ENV = Env()
    us, notes, _ = props.units_for(ENV, sys.argv[1])
    if len(sys.argv) > 2: us = [u for u in us if any(x in u.name for x in sys.argv[2].split('|'))]
    print(len(us), notes)
    t = time.time()
    with ThreadPoolExecutor(8) as ex:
        for rs in ex.map(lambda u: settle(ENV, u), us):
            for r in rs:
                print(r.unit.name, r.status, r.obligations, r.discharged, '%.1f' % r.seconds, r.why[:300], {k: v for k, v in r.extra.items() if k not in ('gb', 'cmd', 'srcdir', 'abstract')})
                for f in r.failed[:4]: print('   ', f['tags'], f['text'], f['property'], f.get('log', '')[-600:])
    print('total', time.time() - t)
    ENV.close()
