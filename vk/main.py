"""Run one check: python3-vt -m vk.main PROPERTY [--replay FILE]

A check is a module checks/<property>.py with
  UNITS            binding units of /repo it drives (see build.py)
  build(out)       optional: builds more (C++ harnesses); its value is passed on
  shards(tier)     list of JSON-able shard descriptions that partition the space
  explore(ctx, shard)   explores one shard exhaustively
  LEVEL, RULE, ASSUMPTIONS

Every shard runs in a process of its own, so that a crash of the code under
test is a verdict on that shard.  A shard that reports a violation is replayed
in a fresh process first: only what fails both times is reported.
"""
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vk import build as vkbuild  # noqa: E402
from vk.ctx import Ctx  # noqa: E402

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS')
SHARD_TIMEOUT = {'quick': 400, 'thorough': 7200}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <what>`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if not line.startswith('finding: '):
                continue
            f = line[len('finding: '):].split(None, 2)
            if f[0] == f'property={prop}':
                out[f[1][len('key='):]] = f[2].strip() if len(f) > 2 else ''
    return out


def child(prop, tier, seed, shard, res, info):
    """Body of a shard process."""
    mod = importlib.import_module(f'checks.{prop}')
    ctx = Ctx(prop, tier, seed)
    if info.get('pkg'):
        sys.path.insert(0, info['pkg'])
    ctx.info = info
    try:
        mod.explore(ctx, shard)
    except Exception as e:  # the driver itself, or an unexpected exception
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(HERE)]
        f = where[-1] if where else tb[-1]
        ctx.violation(f'exception:{type(e).__name__}:{f.name}',
                      f'unexpected {type(e).__name__}: {e} at '
                      f'{os.path.basename(f.filename)}:{f.lineno}: {f.line}',
                      {'shard': shard,
                       'traceback': traceback.format_exc()[-3000:]})
    with open(res + '.tmp', 'w') as f:
        json.dump(ctx.result(), f)
    os.rename(res + '.tmp', res)


class Runner:

    def __init__(self, prop, tier, seed, out, info):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.out, self.info = out, info
        self.n = 0

    def start(self, shard):
        self.n += 1
        base = f'{self.out}/shard{self.n}'
        for suffix in ('.json', '.in', '.log'):
            if os.path.exists(base + suffix):
                os.unlink(base + suffix)
        with open(base + '.in', 'w') as f:
            json.dump({'prop': self.prop, 'tier': self.tier,
                       'seed': self.seed, 'shard': shard, 'info': self.info,
                       'res': base + '.json'}, f)
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPATH=HERE, PYTHONFAULTHANDLER='1', TZ='UTC')
        env.update(self.info.get('env', {}))
        p = subprocess.Popen([sys.executable, '-m', 'vk.main', '--shard',
                              base + '.in'], cwd=HERE, env=env,
                             stdout=open(base + '.log', 'w'),
                             stderr=subprocess.STDOUT, start_new_session=True)
        return p, base, time.time()

    def finish(self, p, base, shard, timed_out):
        if os.path.exists(base + '.json'):
            r = json.load(open(base + '.json'))
        else:
            tail = open(base + '.log', errors='replace').read()[-3000:]
            if timed_out:
                kind, what = 'hang', 'the exploration does not end'
            else:
                sig = -p.returncode if p.returncode < 0 else None
                name = signal.Signals(sig).name if sig else p.returncode
                kind, what = 'crash', f'the process died with {name}'
            r = {'states': 0, 'transitions': 0, 'traces': 0, 'outcomes': {},
                 'samples': [], 'notes': [], 'nviol': 1,
                 'violations': [{'key': f'{kind}:{shard_name(shard)}',
                                 'what': what,
                                 'case': {'shard': shard, 'log': tail}}]}
        r['shard'] = shard
        return r

    def run(self, shards, jobs, deadline):
        todo = list(shards)
        live = []
        done = []
        while todo or live:
            while todo and len(live) < jobs:
                s = todo.pop(0)
                live.append((s, *self.start(s)))
            time.sleep(0.02)
            for item in list(live):
                s, p, base, t0 = item
                late = time.time() - t0 > deadline
                if p.poll() is None and not late:
                    continue
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                live.remove(item)
                done.append(self.finish(p, base, s, late))
        return done


def shard_name(shard):
    if isinstance(shard, dict):
        return ','.join(f'{k}={v}' for k, v in shard.items())
    return str(shard)


def main(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(f'checks.{prop}')
    out = f'{HERE}/build/{prop}'
    os.makedirs(out, exist_ok=True)
    info = {'tier': tier}
    if getattr(mod, 'UNITS', None):
        info['pkg'] = vkbuild.package(mod.UNITS, out)
    if hasattr(mod, 'build'):
        info.update(mod.build(out, tier) or {})
    t1 = time.time()
    shards = mod.shards(tier)
    if replay:
        rep = json.load(open(replay))
        shards = [s for s in shards if s == rep['shard']] or [rep['shard']]
    runner = Runner(prop, tier, seed, out, info)
    jobs = getattr(mod, 'JOBS', os.cpu_count() or 4)
    results = runner.run(shards, jobs, SHARD_TIMEOUT[tier])
    known = known_findings(prop)
    bad = [r for r in results if r['violations']]
    reported = []
    seen_known = {}
    for r in bad:
        fresh = {}
        for v in r['violations']:
            if v['key'] in known:
                seen_known[v['key']] = v
            else:
                fresh[v['key']] = v
        if not fresh or len(reported) >= 5:
            continue
        # replay before report
        again = runner.run([r['shard']], 1, SHARD_TIMEOUT[tier])[0]
        keys = {v['key'] for v in again['violations']}
        for k, v in fresh.items():
            if k in keys:
                reported.append((r['shard'], v))
            else:
                log('not reproduced on replay, ignored:', k, v['what'])
    os.makedirs(f'{HERE}/replays', exist_ok=True)
    total = {k: sum(r[k] for r in results)
             for k in ('states', 'transitions', 'traces', 'nviol')}
    outcomes = {}
    samples = []
    notes = []
    for r in results:
        for k, n in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + n
        if len(samples) < 6:
            samples += r['samples'][:2]
        for n in r['notes']:
            if n not in notes:
                notes.append(n)
    level = getattr(mod, 'LEVEL', 'model_checking')
    coverage = {
        'states': total['states'],
        'transitions': total['transitions'],
        'traces_validated_against_impl': total['traces'],
        'samples': samples[:6] or ['none'],
        'shards': len(results),
        'distinct_outcomes': outcomes,
        'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
        'rule': getattr(mod, 'RULE', ''),
        'exhaustive': True,
        'notes': notes,
        'build_s': round(t1 - t0, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': coverage,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(reported)}
    if not replay:
        os.makedirs(f'{HERE}/evidence', exist_ok=True)
        with open(f'{HERE}/evidence/{prop}.json', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    log(f'{prop} [{tier}]: states={total["states"]} '
        f'transitions={total["transitions"]} traces={total["traces"]} '
        f'shards={len(results)} build={t1 - t0:.1f}s '
        f'wall={time.time() - t0:.1f}s outcomes={outcomes}')
    for k in seen_known:
        print(f'KNOWN-FINDING: property={prop} {k} {known[k]}', flush=True)
    if not reported:
        if total['transitions'] == 0:
            print(f'VIOLATION property={prop} replay=none '
                  '(nothing was explored)', flush=True)
            return 1
        return 0
    for i, (shard, v) in enumerate(reported[:10]):
        path = f'{HERE}/replays/{prop}-{i}.json'
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'shard': shard, **v,
                       'how': f'bash /verif/run {prop} --replay {path}'}, f,
                      indent=1)
        log(f'  {v["key"]}: {v["what"]}')
        print(f'VIOLATION property={prop} replay={path}', flush=True)
    return 1


if __name__ == '__main__':
    if sys.argv[1] == '--shard':
        a = json.load(open(sys.argv[2]))
        child(a['prop'], a['tier'], a['seed'], a['shard'], a['res'],
              a['info'])
        # skip the destructors of the interpreter
        sys.stdout.flush()
        os._exit(0)
    prop = sys.argv[1]
    rep = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        rep = sys.argv[3]
    sys.exit(main(prop, rep))
