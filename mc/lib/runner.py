'''
Runs one part of one property's exploration inside Jython and writes what was
covered, as JSON, for the driver (check.py) to merge.

  runner.py PROPERTY --tier T --seed S --part I --nparts N --out FILE [--replay FILE]
'''
import json
import os
import sys
import traceback

import env                      # must come before privcount
from explore import StopExploring, hash_of

MAX_VIOLATIONS = 5


class Ctx(object):
    'What a property module reports to'
    def __init__(self, prop, tier, seed, part, nparts):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.part, self.nparts = part, nparts
        self.thorough = (tier == 'thorough')
        self.counts = {}
        self.state_set = set()
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self._index = -1

    # -- partitioning ----------------------------------------------------
    def mine(self, index=None):
        'True if this worker is to run the next case'
        if index is None:
            self._index += 1
            index = self._index
        return index % self.nparts == self.part

    # -- measurements ----------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def evaluation(self, n=1):
        self.count('evaluations', n)

    def transition(self, n=1):
        self.count('transitions', n)

    def trace(self, n=1):
        'one complete execution of the real code compared with the model'
        self.count('traces', n)

    def state(self, canon):
        'True if this canonical state was not seen before'
        h = hash_of(canon)
        if h in self.state_set:
            return False
        self.state_set.add(h)
        return True

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    # -- verdicts --------------------------------------------------------
    def violation(self, key, message, case):
        '''
        key: a stable name of what fails (known findings match on it);
        case: JSON that this module's replay(ctx, case) runs again
        '''
        if any(v['key'] == key for v in self.violations):
            self.count('violations_repeated')
            return
        self.violations.append({'key': key, 'message': message, 'case': case})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopExploring()

    def expect(self, cond, key, message, case):
        if not cond:
            self.violation(key, message, case)
        return cond


def main(argv):
    args = dict(zip(argv[1::2], argv[2::2]))
    prop = argv[0]
    ctx = Ctx(prop, args.get('--tier', 'quick'), int(args.get('--seed', '1')),
              int(args.get('--part', '0')), int(args.get('--nparts', '1')))
    t0 = env.real_time()
    error = None
    try:
        module = __import__(args.get('--module', prop.lower()))
        if '--replay' in args:
            with open(args['--replay']) as f:
                module.replay(ctx, json.load(f)['case'])
        else:
            module.run(ctx)
    except StopExploring:
        pass
    except:
        error = traceback.format_exc()
    if 'MC_SHARED' in os.environ:
        open(os.path.join(os.environ['MC_SHARED'], 'stopped%d' % ctx.part), 'w').close()
    out = {'counts': ctx.counts, 'states': sorted(ctx.state_set),
           'outcomes': ctx.outcomes, 'samples': ctx.samples, 'notes': ctx.notes,
           'violations': ctx.violations, 'error': error,
           'wall': env.real_time() - t0}
    text = json.dumps(out, default=repr)
    with open(args['--out'], 'w') as f:
        f.write(text)
    sys.stdout.flush()

if __name__ == '__main__':
    main(sys.argv[1:])
