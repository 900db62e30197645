"""C33: the score browser draws exactly the selected scores."""

import importlib.util
import itertools
import os
import sys
import types
from unittest import mock

import numpy as np
import xarray as xr

from checks import c31
from mc import core
from mc.xrutil import check, close, fail

D, P = 'deterministic', 'probabilistic'
APPS = os.path.join(core.REPO, 'public_benchmark', 'apps')


# -- stand-ins for the libraries of the user interface (not installed) --------
class Part:
  """An input, output or state of a callback."""

  def __init__(self, *args, **kw):
    self.id = kw.get('component_id', args[0] if args else None)
    self.prop = kw.get('component_property', args[1] if len(args) > 1 else None)


class Input(Part):
  pass


class Output(Part):
  pass


class State(Part):
  pass


class Trace(dict):
  """A curve: properties as keys or attributes, None means not set."""

  def __init__(self, **kw):
    super().__init__({k: v for k, v in kw.items() if v is not None})

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return self.get(k)

  def __setattr__(self, k, v):
    self[k] = v

  def update(self, *args, **kw):
    kw.pop('overwrite', None)
    super().update(*args, **kw)
    return self


class Figure:
  """Holds curves and layout properties."""

  def __init__(self, data=None, layout=None, **kw):
    self.traces = [x if isinstance(x, Trace) else Trace(**x)
                   for x in (data or [])]
    self.layout = dict(layout or {})

  @property
  def data(self):
    return tuple(self.traces)

  def __getitem__(self, k):
    if k == 'data':
      return self.data
    if k == 'layout':
      return self.layout
    raise KeyError(k)

  def add_trace(self, t, *args, **kw):
    self.traces.append(t)
    return self

  def add_traces(self, ts, *args, **kw):
    self.traces.extend(ts)
    return self

  def add_scatter(self, **kw):
    return self.add_trace(Trace(**kw))

  def for_each_trace(self, fn, *args, **kw):
    for t in self.traces:
      fn(t)
    return self

  def update_traces(self, patch=None, **kw):
    for t in self.traces:
      t.update(dict(patch or {}, **kw))
    return self

  def update_layout(self, dict1=None, **kw):
    self.layout.update(dict1 or {})
    self.layout.update(kw)
    return self

  def update_xaxes(self, patch=None, **kw):
    self.layout.setdefault('xaxes', {}).update(patch or {}, **kw)
    return self

  update_yaxes = update_xaxes


class Palette(list):

  def as_hex(self):
    return list(self)


class Component(mock.MagicMock):
  """A part of the page; keeps its arguments."""


class World:
  """The application module on the stand-ins, loaded once per process."""

  def __init__(self):
    self.callbacks = []
    self.parts = {}
    def component(*args, **kw):
      if 'id' in kw:
        self.parts[kw['id']] = (args, kw)
      return mock.MagicMock()
    def callback(*args, **kw):
      def wrap(f):
        flat = []
        for a in args:
          flat += list(a) if isinstance(a, (list, tuple)) else [a]
        flat += [x for k in ('inputs', 'state', 'output') for x in (
            lambda v: list(v) if isinstance(v, (list, tuple)) else [v])(
                kw.get(k, []))]
        outs = [x for x in flat if isinstance(x, Output)]
        many = isinstance(args[0] if args else kw['output'], (list, tuple))
        ins = [x for x in flat if not isinstance(x, Output)]
        # dash passes inputs before states
        ins.sort(key=lambda x: isinstance(x, State))
        self.callbacks.append((outs, many, ins, f))
        return f
      return wrap
    def module(name, **kw):
      m = types.ModuleType(name)
      fallback = mock.MagicMock()
      m.__dict__.update(kw)
      m.__getattr__ = lambda k: getattr(fallback, k)
      return m
    parts = mock.MagicMock()
    for n in ('Dropdown', 'RadioItems', 'Checklist', 'Graph', 'Alert'):
      setattr(parts, n, component)
    app = mock.MagicMock()
    app.return_value.callback = callback
    deps = dict(Input=Input, Output=Output, State=State)
    dash = module('dash', callback=callback, Dash=app, dcc=parts, html=parts,
                  **deps)
    dash.dependencies = module('dash.dependencies', **deps)
    dash.dcc, dash.html = parts, parts
    go = module('plotly.graph_objects', Figure=Figure, Scatter=Trace,
                Scattergl=Trace)
    plotly = module('plotly', graph_objects=go, graph_objs=go)
    sns = module('seaborn', color_palette=lambda name, n: Palette(
        f'{name}{i}' for i in range(n)))
    fake = {'dash': dash, 'dash.dependencies': dash.dependencies,
            'dash.dcc': parts, 'dash.html': parts,
            'dash_bootstrap_components': parts, 'plotly': plotly,
            'plotly.express': module('plotly.express'),
            'plotly.graph_objects': go, 'plotly.graph_objs': go,
            'plotly.offline': module('plotly.offline'),
            'plotly.subplots': module('plotly.subplots'), 'seaborn': sns}
    def load(name):
      spec = importlib.util.spec_from_file_location(
          name, os.path.join(APPS, name + '.py'))
      m = importlib.util.module_from_spec(spec)
      spec.loader.exec_module(m)
      return m
    with mock.patch.dict(sys.modules, fake):
      self.config = load('config')
      with mock.patch.dict(sys.modules, {'config': self.config}):
        self.app = load('dash_app')

  def make(self, ds, mode):
    self.callbacks.clear()
    self.parts.clear()
    self.app.make_app(ds, mode)
    return Browser(list(self.callbacks), dict(self.parts))


_WORLD = None


def world():
  global _WORLD
  if _WORLD is None:
    _WORLD = World()
  return _WORLD


class Browser:
  """Runs the callbacks of an application, by the names of the components."""

  def __init__(self, callbacks, parts):
    self.callbacks = callbacks
    self.parts = parts

  def call(self, target, values):
    """The new value of component property target, e.g. graph.figure."""
    for outs, many, ins, f in self.callbacks:
      names = [f'{o.id}.{o.prop}' for o in outs]
      if target not in names:
        continue
      res = f(*[values[f'{i.id}.{i.prop}'] for i in ins])
      if not many:
        res = [res]
      check(len(res) == len(names), f'{len(res)} results for {names}')
      return dict(zip(names, res))
    fail(f'no callback for {target}')


# -- data ---------------------------------------------------------------------
LEADS = np.array([0, 6, 12, 24, 240])
MODELS = {
    D: ['IFS HRES vs ERA5', 'GraphCast vs ERA5', 'IFS HRES vs Analysis',
        'Persistence vs ERA5', 'NeuralGCM 0.7 vs ERA5'],
    P: ['NeuralGCM ENS vs ERA5', 'IFS ENS vs Analysis', 'IFS ENS vs ERA5',
        'GenCast vs ERA5'],
}
METRICS = {D: ['SEEPS', 'RMSE', 'ACC', 'Bias'],
           P: ['CRPS', 'Spread/Skill Ratio', 'Unbiased Mean RMSE']}
VARS = ('Temperature', '2m Temperature', '24h Precipitation', '6h Precipitation')
REGIONS = ['Tropics', 'Global', 'Europe (Land)']
YEARS = ['2018', '2020']
RES = ['64x32', '240x121']
LEVELS = [850, 500]
MODES = ('Absolute scores', 'Compare to model')


def dataset(mode):
  """Every score differs from all others; some are missing."""
  dims = ['model', 'metric', 'region', 'year', 'resolution', 'level',
          'lead_time']
  co = dict(zip(dims, (MODELS[mode], METRICS[mode], REGIONS, YEARS, RES, LEVELS,
                       LEADS.astype('timedelta64[h]').astype(
                           'timedelta64[ns]'))))
  out = {}
  for n, v in enumerate(VARS):
    d = dims if v == 'Temperature' else [x for x in dims if x != 'level']
    shape = [len(co[x]) for x in d]
    k = np.arange(np.prod(shape)).reshape(shape)
    x = 0.5 + ((k * 7919 + n * 13) % 8191) / 8192.0
    da = xr.DataArray(x, dims=d, coords={c: co[c] for c in d})
    # missing scores: no SEEPS of temperatures, nothing vs Analysis
    if mode == D:
      seeps = da.metric == 'SEEPS'
      if 'Temperature' in v:
        da = da.where(~seeps)
      else:
        da = da.where(~(seeps & (da.model == 'IFS HRES vs Analysis')))
    # one model without the first year, single missing and infinite values
    m = MODELS[mode]
    da = da.where(~((da.model == m[0]) & (da.year == YEARS[0])))
    da = da.where(~((da.model == m[1]) & (da.lead_time == da.lead_time[2])))
    da = da.where(~((da.model == m[3]) & (da.resolution == RES[0]) &
                    (da.lead_time != da.lead_time[1])))
    out[v] = da
  ds = xr.Dataset(out)
  return ds.assign_coords(lead_time_h=('lead_time', LEADS))


def visible(trace):
  """True or legendonly, as the browser shows the curve."""
  return trace['visible'] if trace.get('visible') is not None else True


class C33(core.Check):
  id = 'C33'
  rule = ('all combinations of the menus of both applications (variable, '
          'metric, level, region, year, resolution, mode, reference model, '
          'markers) on small data sets with distinct and missing values; all '
          'histories of selections and toggled curves up to a depth; the menu '
          'entries and styles for every model and variable of the combination '
          'script')
  assumptions = ('the libraries of the user interface are replaced by '
                 'recording stand-ins',)

  def cases(self):
    for mode in (D, P):
      for v, m, y in itertools.product(VARS, METRICS[mode], YEARS):
        yield {'k': 'select', 'mode': mode, 'v': v, 'm': m, 'y': y}
      n = len(self.events(mode))
      for first in itertools.product(range(n), repeat=2):
        yield {'k': 'history', 'mode': mode, 'first': list(first)}
      yield {'k': 'leads', 'mode': mode}
      yield {'k': 'menus', 'mode': mode}
      yield {'k': 'styles', 'mode': mode}

  def run_case(self, case, rec):
    getattr(self, '_' + case['k'])(case, rec)

  def values(self, variable, metric, level, region, year, resolution, relative,
             relative_to, markers, previous=None):
    return {'variable.value': variable, 'metric.value': metric,
            'level.value': level, 'region.value': region, 'year.value': year,
            'resolution.value': resolution, 'relative.value': relative,
            'relative_to.value': relative_to, 'markers.value': markers,
            'graph.figure': previous}

  # -- reference --------------------------------------------------------------
  def expected(self, ds, mode, s):
    """(curves by model in order, reference missing, seeps alert)."""
    v, metric = s['variable.value'], s['metric.value']
    rel = s['relative.value'] == MODES[1]
    to = s['relative_to.value']
    if metric == 'SEEPS' and (
        'Precipitation' not in v or (rel and 'vs Analysis' in to)):
      return {}, False, True
    def score(model, k):
      idx = {'model': model, 'metric': metric, 'region': s['region.value'],
             'year': s['year.value'], 'resolution': s['resolution.value']}
      if 'level' in ds[v].dims:
        idx['level'] = s['level.value']
      return float(ds[v].sel(idx).values[k])
    out = {}
    leads = ds.lead_time_h.values
    base = [score(to, k) for k in range(len(leads))]
    for model in MODELS[mode]:
      y = []
      for k, lead in enumerate(leads):
        x = score(model, k)
        if rel:
          gap = 1 - base[k] if metric == 'ACC' else -base[k]
          x = (x - base[k]) / gap * 100
        if lead == 0 and (rel or metric == 'Spread/Skill Ratio'):
          x = np.nan
        y.append(x)
      if np.any(np.isfinite(y)):
        out[model] = np.array(y)
    return out, rel and not np.any(np.isfinite(base)), False

  def verify(self, res, ds, mode, s, what):
    curves, missing, seeps = self.expected(ds, mode, s)
    fig = res['graph.figure']
    check(bool(res['alert-seeps.is_open']) == seeps,
          f'{what}: notice on SEEPS is {res["alert-seeps.is_open"]}')
    check(bool(res['alert-relative.is_open']) == missing,
          f'{what}: notice on the missing reference is '
          f'{res["alert-relative.is_open"]}')
    check(not res['alert-tbd.is_open'], f'{what}: notice on results to come')
    got = [t['name'] for t in fig.data]
    check(sorted(got) == sorted(curves),
          f'{what}: curves {got}, expected {list(curves)}')
    for t in fig.data:
      y = np.asarray(t['y'], float)
      x = np.asarray(t['x'])
      if x.dtype.kind == 'm':
        x = x / np.timedelta64(1, 'h')
      check(np.array_equal(np.asarray(x, float),
                           ds.lead_time_h.values.astype(float)),
            f'{what}: lead hours {x}')
      check(close(y, curves[t['name']], 1e-9, 1e-9),
            f'{what}: curve of {t["name"]} is {y}, expected '
            f'{curves[t["name"]]}')
      markers = 'markers' in t.get('mode', '')
      check(markers == (len(s['markers.value']) == 1),
            f'{what}: mode {t.get("mode")}')
      check(t.get('connectgaps') is True, f'{what}: gaps are not connected')
    if seeps:
      return
    label = self.axis(fig)
    if s['relative.value'] == MODES[1]:
      check('%' in label and s['relative_to.value'] in label,
            f'{what}: axis "{label}"')
    else:
      check(s['metric.value'] in label and '%' not in label,
            f'{what}: axis "{label}"')
      unit = world().config.UNITS[s['variable.value']]
      if s['metric.value'] == 'ACC':
        check(f'[{unit}]' not in label, f'{what}: axis "{label}"')
      else:
        check(unit in label, f'{what}: axis "{label}"')

  def axis(self, fig):
    for k in ('yaxis_title', 'yaxis_title_text'):
      if k in fig.layout:
        return str(fig.layout[k])
    return str(fig.layout.get('yaxis'))

  def _select(self, case, rec):
    mode = case['mode']
    ds = dataset(mode)
    app = world().make(ds, mode)
    regions = REGIONS if self.thorough else REGIONS[:2]
    for level, region, res, rel, to, mk in itertools.product(
        LEVELS, regions, RES, MODES, MODELS[mode], ([1], [])):
      if not self.thorough:
        if not mk and (to != MODELS[mode][1] or region == REGIONS[1]):
          continue
        if rel == MODES[0] and to not in MODELS[mode][1:3]:
          continue
      s = self.values(case['v'], case['m'], level, region, case['y'], res, rel,
                      to, mk)
      out = app.call('graph.figure', s)
      what = ', '.join(str(x) for x in s.values())
      self.verify(out, ds, mode, s, what)
      if out['graph.figure'].data:
        self.defaults(out['graph.figure'], mode, case['v'], what)
      rec.nodes += 1
      rec.transition()
      rec.trace(1, what)

  def _leads(self, case, rec):
    """Stores with any subset of the lead times."""
    mode = case['mode']
    full = dataset(mode)
    n = len(LEADS)
    for k in range(1, n + 1):
      for sub in itertools.combinations(range(n), k):
        ds = full.isel(lead_time=list(sub))
        app = world().make(ds, mode)
        for v, m, rel in itertools.product(VARS[:2], METRICS[mode][1:3], MODES):
          s = self.values(v, m, 500, 'Global', YEARS[1], RES[1], rel,
                          MODELS[mode][2], [1])
          what = f'leads {LEADS[list(sub)]}, {v}, {m}, {rel}'
          self.verify(app.call('graph.figure', s), ds, mode, s, what)
          rec.nodes += 1
          rec.transition()
          rec.trace(1, what)

  def defaults(self, fig, mode, variable, what):
    """Without a history, the default models are shown, others hidden."""
    cfg = world().config
    names = (cfg.DEFAULT_MODELS_PRECIP if 'Precipitation' in variable else
             cfg.DEFAULT_MODELS if mode == D else cfg.DEFAULT_MODELS_PROB)
    for t in fig.data:
      want = True if t['name'] in names else 'legendonly'
      check(visible(t) == want, f'{what}: {t["name"]} is shown as '
            f'{visible(t)}, expected {want}')

  # -- histories --------------------------------------------------------------
  def events(self, mode):
    """Selections, and curves that the user switches."""
    m = MODELS[mode]
    e = [('sel', VARS[0], METRICS[mode][1], MODES[0], YEARS[1]),
         ('sel', VARS[2], METRICS[mode][1], MODES[0], YEARS[0]),
         ('sel', VARS[1], METRICS[mode][2], MODES[1], YEARS[1]),
         ('toggle', m[1]), ('toggle', m[3])]
    if mode == D:
      e.append(('sel', VARS[0], 'SEEPS', MODES[0], YEARS[1]))
    return e

  def _history(self, case, rec):
    mode = case['mode']
    ds = dataset(mode)
    app = world().make(ds, mode)
    events = self.events(mode)
    depth = 3 if self.thorough else 2
    seen = {}
    for tail in itertools.product(range(len(events)), repeat=depth):
      seq = case['first'] + list(tail)
      # only histories that start and end with a selection
      if events[seq[0]][0] != 'sel' or events[seq[-1]][0] != 'sel':
        continue
      prev = None  # list of (name, visible or None)
      for n, i in enumerate(seq):
        e = events[i]
        key = tuple(seq[:n + 1])
        if key in seen:
          prev = seen[key]
          continue
        if e[0] == 'toggle':
          prev = [(a, ('legendonly' if b in (True, None) else True)
                   if a == e[1] else b) for a, b in prev]
        else:
          old = None if prev is None else {
              'data': [{'name': a, 'type': 'scatter',
                        **({} if b is None else {'visible': b})}
                       for a, b in prev], 'layout': {}}
          s = self.values(e[1], e[2], 500, 'Global', e[4], RES[1], e[3],
                          MODELS[mode][1], [1], old)
          out = app.call('graph.figure', s)
          what = f'{mode} history {seq[:n + 1]}'
          self.verify(out, ds, mode, s, what)
          before = {a: True if b is None else b for a, b in prev or []}
          for t in out['graph.figure'].data:
            if t['name'] in before:
              check(visible(t) == before[t['name']],
                    f'{what}: {t["name"]} was {before[t["name"]]} and is '
                    f'{visible(t)} now')
          prev = [(t['name'], t.get('visible'))
                  for t in out['graph.figure'].data]
          rec.transition()
        seen[key] = prev
        rec.state((mode, key[-1], tuple(map(str, prev))))
      rec.nodes += 1
      rec.trace(1, str(prev))

  # -- menus ------------------------------------------------------------------
  def _menus(self, case, rec):
    mode = case['mode']
    ds = dataset(mode)
    app = world().make(ds, mode)
    want = {'variable': list(ds), 'metric': METRICS[mode], 'level': LEVELS,
            'region': REGIONS, 'year': YEARS, 'resolution': RES,
            'relative_to': MODELS[mode]}
    for name, items in want.items():
      check(name in app.parts, f'no menu {name}')
      args, kw = app.parts[name]
      got = list(kw.get('options', args[0] if args else []))
      check(sorted(map(str, got)) == sorted(map(str, items)),
            f'menu {name} offers {got}, expected {items}')
      rec.trace(1, (name, len(got)))
    surface = set(world().config.SURFACE_VARIABLES)
    for v in world().config.UNITS:
      out = app.call('level.disabled', {'variable.value': v})
      check(bool(out['level.disabled']) == (v in surface),
            f'level menu for {v}: {out}')
      rec.transition()
    for m in MODES:
      out = app.call('relative_to.disabled', {'relative.value': m})
      check(bool(out['relative_to.disabled']) == (m == MODES[0]),
            f'reference menu for {m}: {out}')
      rec.transition()
    rec.nodes += 1

  def _styles(self, case, rec):
    """Every model and variable of the combination script can be drawn."""
    mode = case['mode']
    script = c31.script()
    models = list((script.DETERMINISTIC_MODELS if mode == D else
                   script.PROBABILISTIC_MODELS).values())
    metric = METRICS[mode][1] if mode == D else 'CRPS'
    for v in script.VARIABLE_NAMES.values():
      x = np.arange(len(models) * len(LEADS), dtype=float).reshape(
          len(models), len(LEADS)) + 1
      da = xr.DataArray(
          x[:, None, None, None, None, None],
          dims=['model', 'metric', 'region', 'year', 'resolution', 'level',
                'lead_time'],
          coords={'model': models, 'metric': [metric], 'region': ['Global'],
                  'year': ['2020'], 'resolution': ['240x121'], 'level': [500],
                  'lead_time': LEADS.astype('timedelta64[h]').astype(
                      'timedelta64[ns]')})
      ds = xr.Dataset({v: da}).assign_coords(
          lead_time_h=('lead_time', LEADS))
      app = world().make(ds, mode)
      out = app.call('graph.figure', self.values(
          v, metric, 500, 'Global', '2020', '240x121', MODES[0], models[0],
          [1]))
      got = {t['name']: t for t in out['graph.figure'].data}
      check(set(got) == set(models), f'curves of {sorted(got)}')
      for i, m in enumerate(models):
        check(close(np.asarray(got[m]['y'], float), x[i]), f'curve of {m}')
      rec.nodes += 1
      rec.transition()
      rec.trace(1, v)


CHECK = C33
