"""Decides one property: symbolic runs, solver verdicts, replay, evidence.

usage: python3-vt -m vx.run PROPERTY [--tier quick|thorough] [--ob NAME]
"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV_PY = '/opt/venv/bin/python'
REPO = os.environ.get('VX_REPO', '/repo')


def prop_module(prop):
  from checks import PROPS
  return importlib.import_module('checks.' + PROPS.get(prop, prop))


class _Cov:
  """Which functions of the code under test were executed."""

  def __init__(self, repo):
    self.repo = repo
    self.seen = set()

  def __enter__(self):
    m = sys.monitoring
    m.use_tool_id(3, 'vx')

    def start(code, off):
      if code.co_filename.startswith(self.repo):
        n = code.co_qualname
        if not n.startswith('<'):
          self.seen.add(os.path.relpath(code.co_filename, self.repo) + '::' + n)
      return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    events = m.events.PY_START
    self.lines = set()
    if os.environ.get('VX_LINES'):  # for tools/lines.py

      def line(code, n):
        if code.co_filename.startswith(self.repo):
          self.lines.add((code.co_filename, n))
        return m.DISABLE
      m.register_callback(3, m.events.LINE, line)
      events |= m.events.LINE
    m.set_events(3, events)
    return self

  def __exit__(self, *a):
    sys.monitoring.set_events(3, 0)
    if self.lines:
      with open(os.environ['VX_LINES'], 'a') as h:
        h.write(''.join(f'{f}:{n}\n' for f, n in sorted(self.lines)))
    sys.monitoring.free_tool_id(3)


def run_ob(prop, name, tier, seed, mult=1.0):
  """Worker: explore one obligation.  Returns a JSON-able dict."""
  from vx import api, sym
  import z3
  z3.set_param('smt.random_seed', seed % 1000)
  ob = [o for o in prop_module(prop).obligations(tier) if o.name == name][0]
  t0 = time.time()
  e = sym.Engine(name, max_paths=ob.max_paths, branch_ms=ob.branch_ms,
                 check_ms=ob.check_ms, deadline=t0 + ob.budget_s * mult,
                 seed=seed)
  reached = {}
  samples = []
  traces = []
  notes = []
  rnd = random.Random(seed)

  def body():
    h = api.SymH(e, ob.max_cands)
    try:
      ob.fn(h, **ob.kw)
      for k, v in h.reached.items():
        reached[k] = reached.get(k, 0) + v
      if e.last_model is None and (len(samples) < 3 or len(traces) < 12):
        r, m = e._query(z3.BoolVal(True))
        e.last_model = m
      if e.last_model is not None:
        if len(samples) < 3:
          samples.append(_short(e.export(e.last_model)))
        if ob.observe and h.obs and not any(
            not (isinstance(k, tuple) and k[0] == 'uf') for k in e.fnapps):
          _trace(e, h, traces)
    except sym.PathAbort:
      for k, v in h.reached.items():
        reached[k] = reached.get(k, 0) + v
      raise
    except Exception as ex:  # pylint: disable=broad-except
      for k, v in h.reached.items():
        reached[k] = reached.get(k, 0) + v
      e.stats['exceptions'] += 1
      lab = f'exception:{type(ex).__name__}'
      if e.skip.get(lab, 0) < ob.max_cands:
        tb = traceback.format_exc(limit=-8)
        r, m = e.solve(z3.BoolVal(True))
        if r == 'unsat':
          return
        e.skip[lab] = e.skip.get(lab, 0) + 1
        if m is None:
          e.inconclusive.append(f'{lab} on a path the solver cannot decide')
        else:
          for mm in [m] + e.nicer_models(z3.BoolVal(True)):
            e.candidates.append(dict(label=lab, inputs=e.export(mm),
                                     ufs=e.export_ufs(mm), trace=tb))
    finally:
      for obj, nm, old, had in reversed(h.undo):
        if had:
          setattr(obj, nm, old)
        else:
          try:
            delattr(obj, nm)
          except AttributeError:
            pass

  status = 'ok'
  with _Cov(REPO) as cov:
    try:
      e.explore(body)
    except sym.Budget as b:
      status = 'budget'
      e.inconclusive.append(f'budget: {b}')
    except sym.Unsupported as u:
      status = 'unsupported'
      e.inconclusive.append(f'not encodable: {u}\n' +
                            traceback.format_exc(limit=-6))
    except MemoryError:
      status = 'memory'
      e.inconclusive.append('out of memory')
  for lab in ob.need:
    if not reached.get(lab):
      e.inconclusive.append(f'vacuous: check {lab!r} was never reached')
  if not reached and not e.candidates:
    e.inconclusive.append('vacuous: no check was reached')
  reals = sorted({n for n in getattr(e, 'inputs', {})})
  return dict(obligation=name, status=status, stats=e.stats, reached=reached,
              candidates=e.candidates, inconclusive=e.inconclusive,
              samples=samples, traces=traces, bounds=ob.bounds,
              functions=sorted(cov.seen), inputs=reals,
              wall_s=round(time.time() - t0, 2))


def _short(d):
  out = {}
  for k, v in list(d.items())[:24]:
    from fractions import Fraction
    out[k[:80]] = float(Fraction(v))
  return out


def _trace(e, h, traces, limit=12):
  """Record the encoding's outputs at one input for conformance."""
  from vx import sym
  if len(traces) >= limit:
    return
  m = e.last_model
  obs = {}
  for k, v in h.obs.items():
    try:
      if isinstance(v, sym.SymBool):
        obs[k] = float(sym.z3.is_true(m.eval(v.t, model_completion=True)))
      elif isinstance(v, sym.Sym):
        obs[k] = sym.model_float(m, v.t)
      else:
        obs[k] = float(v)
    except Exception:  # pylint: disable=broad-except
      continue
  traces.append(dict(obligation=e.name, inputs=e.export(m),
                     ufs=e.export_ufs(m), obs=obs))


def _worker(args):
  prop, name, tier, seed, mult = args
  try:
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    return run_ob(prop, name, tier, seed, mult)
  except BaseException as ex:  # pylint: disable=broad-except
    return dict(obligation=name, status='error', stats={}, reached={},
                candidates=[], samples=[], traces=[], functions=[], bounds='',
                inputs=[], wall_s=0,
                inconclusive=[f'harness error: {type(ex).__name__}: {ex}\n' +
                              traceback.format_exc(limit=-10)])


def _venv(args, timeout):
  env = dict(os.environ)
  env.update(JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
             TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
  tmp = tempfile.mkdtemp(prefix='vxrun')
  env['MPLCONFIGDIR'] = tmp
  try:
    return subprocess.run([VENV_PY, '-W', 'ignore', '-m', 'vx.replay'] + args,
                          cwd=HERE, env=env, capture_output=True, text=True,
                          timeout=timeout, stdin=subprocess.DEVNULL)
  except subprocess.TimeoutExpired:
    return None
  finally:
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
  p = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                  choices=['quick', 'thorough'])
  ap.add_argument('--ob', action='append')
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('--verbose', '-v', action='store_true')
  a = ap.parse_args()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  from checks import PROPS
  prop = {v: k for k, v in PROPS.items()}.get(a.property, a.property)
  mod = prop_module(prop)
  obs = mod.obligations(a.tier)
  if a.ob:
    obs = [o for o in obs if any(x in o.name for x in a.ob)]
  names = [o.name for o in obs]
  assert len(set(names)) == len(names), 'duplicate obligation names'
  order = sorted(obs, key=lambda o: -o.budget_s)
  jobs = [(prop, o.name, a.tier, seed, 1.0) for o in order]
  results = []
  ctx = mp.get_context('fork')
  with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
    for r in pool.imap_unordered(_worker, jobs, chunksize=1):
      results.append(r)
      if a.verbose:
        s = r['stats']
        print(f"  {r['obligation']}: {r['status']} paths={s.get('paths')} "
              f"aborted={s.get('aborted')} queries={s.get('prop_queries')} "
              f"unsat={s.get('unsat')} sat={s.get('sat')} "
              f"solver={s.get('solver_s', 0):.1f}s wall={r['wall_s']}s "
              f"cands={len(r['candidates'])}", flush=True)
  results.sort(key=lambda r: names.index(r['obligation']))

  # ---- replay candidates on the real code
  outdir = os.path.join(HERE, 'replays')
  os.makedirs(outdir, exist_ok=True)
  for old in glob.glob(os.path.join(outdir, f'{prop}__*.json')):
    os.remove(old)
  groups = []
  for r in results:
    by = {}
    for c in r['candidates']:
      by.setdefault(c['label'], []).append(c)
    for lab, cs in by.items():
      groups.append((r['obligation'], lab, cs))
  violations, known, unconfirmed = [], [], []
  kf = known_findings(prop)

  def replay(g):
    ob, lab, cs = g
    safe = ''.join(ch if ch.isalnum() else '_' for ch in f'{ob}_{lab}')[:80]
    path = os.path.join(outdir, f'{prop}__{safe}.json')
    doc = dict(property=prop, obligation=ob, label=lab, candidates=cs[:12])
    with open(path, 'w') as f:
      json.dump(doc, f, indent=1)
    hit = path + '.hit'
    p = _venv([path, hit], 200)
    if p is not None and p.returncode == 1 and 'REPRODUCED' in p.stdout:
      if os.path.exists(hit):
        with open(hit) as f:
          h = json.load(f)
        doc['candidates'] = [h['candidate']]
        doc['detail'] = h['detail']
        os.remove(hit)
        with open(path, 'w') as f:
          json.dump(doc, f, indent=1)
      return True, path, p.stdout
    return False, path, ('timeout' if p is None else p.stdout + p.stderr)

  if groups:
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as tp:
      outs = list(tp.map(replay, groups))
    for (ob, lab, cs), (ok, path, text) in zip(groups, outs):
      if not ok:
        unconfirmed.append(f'{ob}/{lab}: counterexample did not reproduce: '
                           f'{text[-600:]} {cs[0].get("trace", "")[-1500:]}')
        continue
      k = [x for x in kf if x['obligation'] == ob and x['label'] == lab]
      if k:
        known.append(k[0])
      else:
        violations.append((ob, lab, path, text))

  # ---- encoding vs. real code on sample inputs
  traces = []
  cap = 24 if a.tier == 'quick' else 200
  for r in results:
    traces += r['traces'][: max(2, cap // max(1, len(results)))]
  conf = dict(compared=0, mismatches=[])
  if traces and not a.ob or traces and a.verbose:
    tf = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump(dict(mode='observe', property=prop, runs=traces), tf)
    tf.close()
    of = tf.name + '.out'
    p = _venv([tf.name, of], 240)
    if p is not None and os.path.exists(of):
      with open(of) as f:
        outs = json.load(f)
      for tr, o in zip(traces, outs):
        if o['skipped']:
          continue
        conf['compared'] += 1
        for k, v in tr['obs'].items():
          if k in o['obs'] and isinstance(o['obs'][k], float):
            if abs(o['obs'][k] - v) > 1e-4 * (1 + abs(v)):
              conf['mismatches'].append(
                  f'{tr["obligation"]}.{k}: encoding {v} real {o["obs"][k]}')
        if o['violations'] and not any(
            c['label'] == o['violations'][0][0] for r in results
            for c in r['candidates']):
          conf['mismatches'].append(f'{tr["obligation"]}: real run reports '
                                    f'{o["violations"][0][0]}')
      os.remove(of)
    else:
      conf['mismatches'].append('conformance run failed: ' + (
          'timeout' if p is None else p.stderr[-300:]))
    os.remove(tf.name)

  incon = [f'{r["obligation"]}: {x}' for r in results
           for x in r['inconclusive']] + unconfirmed
  tot = {}
  for r in results:
    for k, v in r['stats'].items():
      tot[k] = round(tot.get(k, 0) + v, 3)
  funcs = sorted({f for r in results for f in r['functions']})
  ev = dict(
      property=prop, tier=a.tier, seed=seed, level='other',
      coverage=dict(
          explanation=(
              'Bounded symbolic execution of the repository source: every '
              'feasible path of each harness is executed on z3 terms and each '
              'assertion is decided by the solver for all values of the '
              'symbolic inputs on that path (unsat = holds within the stated '
              'bounds). Counterexamples are replayed on the real code.'),
          obligations=len(results),
          obligations_fully_explored=sum(r['status'] == 'ok'
                                         for r in results),
          paths=int(tot.get('paths', 0)),
          paths_infeasible=int(tot.get('aborted', 0)),
          branch_queries=int(tot.get('branch_queries', 0)),
          property_queries=int(tot.get('prop_queries', 0)),
          assertions_proved=int(tot.get('unsat', 0)),
          assertions_decided_by_path_condition=int(tot.get('on_path', 0)),
          assertions_refuted=int(tot.get('sat', 0)),
          undecided=int(tot.get('unknown', 0)),
          function_refinements=int(tot.get('refinements', 0)),
          solver_s=tot.get('solver_s', 0),
          functions_encoded=funcs,
          bounds={r['obligation']: r['bounds'] for r in results},
          checks_reached={r['obligation']: r['reached'] for r in results},
          traces_compared_with_real_code=conf['compared'],
          conformance_mismatches=conf['mismatches'][:20],
          samples=[dict(obligation=r['obligation'], inputs=s)
                   for r in results for s in r['samples'][:1]][:20],
          inconclusive=incon[:20],
          wall_by_obligation={r['obligation']: r['wall_s'] for r in results},
          known_findings=[k['text'] for k in known],
      ),
      assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + GLOBAL_ASSUMPTIONS,
      wall_s=round(time.time() - t0, 2), violations=len(violations))
  if not a.ob:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)

  seen = set()
  for k in known:
    if k['text'] not in seen:
      seen.add(k['text'])
      print(f'KNOWN-FINDING: property={prop} {k["text"]}')
  for ob, lab, path, text in violations:
    print(f'VIOLATION property={prop} replay={path}')
    print(f'  obligation {ob}, check {lab}')
    print('  ' + text.strip().replace('\n', '\n  ')[:1500])
  for x in incon[:10]:
    print(f'UNDECIDED {prop} {x}')
  for x in conf['mismatches'][:5]:
    print(f'note: conformance: {x}')
  print(f'{prop} [{a.tier}] obligations={len(results)} '
        f'paths={int(tot.get("paths", 0))} '
        f'proved={int(tot.get("unsat", 0))}+'
        f'{int(tot.get("on_path", 0))} violations={len(violations)} '
        f'inconclusive={len(incon)} compared={conf["compared"]} '
        f'mismatch={len(conf["mismatches"])} '
        f'solver={tot.get("solver_s", 0):.1f}s wall={time.time() - t0:.1f}s')
  if violations:
    return 1
  # Undecided obligations are reported above and in the evidence; the run is
  # an answer only if some obligation was decided in full.
  undecided = {x.split(':', 1)[0].split('/', 1)[0] for x in incon}
  if results and len(undecided) >= len(results):
    return 2
  return 0


GLOBAL_ASSUMPTIONS = [
    'Python floats are modelled as real numbers (float constants keep their '
    'exact double value); rounding, overflow and non-finite inputs are '
    'outside the claim.',
    'numpy, jax, scipy.interpolate, datetime and math are modelled by '
    'vx/npshim.py and vx/shims.py; transcendental functions by sound '
    'axioms refined at model points.',
]

if __name__ == '__main__':
  sys.exit(main())
