"""A catalogue of metrics with parameters, and small data to evaluate them on."""

import itertools

import numpy as np
import xarray as xr

from weatherbenchX.metrics import base
from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import spatial
from weatherbenchX.metrics import wrappers as wr

INITS = np.array(['2020-02-28T00', '2020-12-31T12'], 'datetime64[ns]')
LEADS = np.array([0, 12], 'timedelta64[h]').astype('timedelta64[ns]')
LATS = np.array([-60.0, 0.0, 60.0])
LONS = np.array([0.0, 120.0, 240.0])
DIMS = ('init_time', 'lead_time', 'latitude', 'longitude')
COORDS = {'init_time': INITS, 'lead_time': LEADS, 'latitude': LATS,
          'longitude': LONS}
SHAPE = (2, 2, 3, 3)
M = 3


def _da(x, name, ens=False):
  dims = DIMS + (('number',) if ens else ())
  c = dict(COORDS)
  if ens:
    c['number'] = np.arange(M)
  return xr.DataArray(x, dims=dims, coords=c, name=name)


LONG = tuple('wind_' + 'speed_' * 30 + n for n in 'uv')


def data(kind, names=('a', 'b')):
  """(predictions, targets) dictionaries of the given kind."""
  if kind == 'long':
    return data('real', LONG)
  p, t = {}, {}
  for i, n in enumerate(names):
    r = np.random.RandomState(10 + i)
    q = lambda *s: np.round(r.uniform(0, 4, s) * 8) / 8  # exact in binary
    if kind == 'real':
      p[n], t[n] = _da(q(*SHAPE), n), _da(q(*SHAPE), n)
    elif kind == 'precip':
      f = lambda: r.choice([0.0, 0.0001, 0.0005, 0.002, 0.01], size=SHAPE)
      p[n], t[n] = _da(f(), n), _da(f(), n)
    elif kind == 'binary':
      f = lambda: r.randint(0, 2, SHAPE).astype(float)
      p[n], t[n] = _da(f(), n), _da(f(), n)
    elif kind == 'prob':
      p[n] = _da(r.choice([0.0, 0.25, 0.5, 0.75, 1.0], size=SHAPE), n)
      t[n] = _da(r.randint(0, 2, SHAPE).astype(float), n)
    elif kind == 'ens':
      p[n], t[n] = _da(q(*SHAPE, M), n, True), _da(q(*SHAPE), n)
    elif kind in ('holes', 'holesens', 'holesbin'):
      x = q(*SHAPE, M) if kind != 'holesbin' else r.randint(
          0, 2, SHAPE + (M,)).astype(float)
      x[0, 0, 0, :, 1] = x[1, 1, 2, 0, 0] = np.nan
      y = q(*SHAPE, M)
      y[0, 0, 0, 1, 1] = np.nan
      p[n] = _da(x, n, True)
      t[n] = _da(y, n, True) if kind == 'holesens' else _da(
          np.nan_to_num(y[..., 1]), n)
    elif kind in ('two ens', 'two ensens'):
      x = _da(q(*SHAPE, M), n, True)
      x = xr.concat([x, x[..., ::-1] * 0.5 + 1.0, x * x / 4.0, 3.0 - x], 'realization')
      p[n] = x.assign_coords(realization=np.arange(4))
      t[n] = _da(q(*SHAPE), n)
      if kind == 'two ensens':
        t[n] = p[n] * p[n] / 3.0 + t[n]
    elif kind == 'ensens':
      p[n], t[n] = _da(q(*SHAPE, M), n, True), _da(q(*SHAPE, M), n, True)
    elif kind == 'ensbin':
      p[n] = _da(r.randint(0, 2, SHAPE + (M,)).astype(float), n, True)
      t[n] = _da(r.randint(0, 2, SHAPE).astype(float), n)
    elif kind == 'cdf':
      x = np.sort(r.uniform(0, 1, SHAPE + (3,)), -1)
      y = np.sort(r.randint(0, 2, SHAPE + (3,)).astype(float), -1)
      c = {**COORDS, 'bins': [1.0, 2.0, 3.0]}
      p[n] = xr.DataArray(x, dims=DIMS + ('bins',), coords=c, name=n)
      t[n] = xr.DataArray(y, dims=DIMS + ('bins',), coords=c, name=n)
    else:
      raise ValueError(kind)
  return p, t


def climatology(seed=0, names=('a', 'b')):
  """Climatological means by day of year and hour."""
  r = np.random.RandomState(100 + seed)
  doy, hour = np.arange(1, 367), np.array([0, 12])
  out = {}
  for n in names:
    x = np.round(r.uniform(0, 4, (366, 2, 3, 3)) * 8) / 8
    out[n] = xr.DataArray(x, dims=['dayofyear', 'hour', 'latitude', 'longitude'],
                          coords={'dayofyear': doy, 'hour': hour,
                                  'latitude': LATS, 'longitude': LONS})
  return xr.Dataset(out)


def quantile_climatology(seed=0, names=('a', 'b')):
  c = climatology(seed, names)
  width = {0.1: -1.0, 0.25: -0.5, 0.75: 0.5, 0.9: 1.0}
  return xr.concat([c + w for w in width.values()],
                   dim=xr.DataArray(list(width), dims='quantile',
                                    coords={'quantile': list(width)}))


def seeps_climatology(seed=0, names=('a', 'b')):
  r = np.random.RandomState(200 + seed)
  out = {}
  for i, n in enumerate(names):
    dims = ['hour', 'dayofyear', 'latitude', 'longitude']
    c = {'hour': [0, 12], 'dayofyear': np.arange(1, 367), 'latitude': LATS,
         'longitude': LONS}
    out[f'{n}_seeps_threshold'] = xr.DataArray(
        r.choice([0.001, 0.003], size=(2, 366, 3, 3)), dims=dims, coords=c)
    f = np.broadcast_to(np.linspace(0.05 + 0.1 * i, 0.95, 9).reshape(3, 3),
                        (2, 366, 3, 3)).copy()
    out[f'{n}_seeps_dry_fraction'] = xr.DataArray(f, dims=dims, coords=c)
  return xr.Dataset(out)


def thresholds(values, dim):
  return xr.DataArray(
      np.array(values)[:, None] + np.array([0.0, 0.25, 0.5]), dims=[dim, 'latitude'],
      coords={dim: list(values), 'latitude': LATS})


def _binary(which='both', th=(1.0, 2.0), dim='th'):
  return wr.ContinuousToBinary(which, list(th), dim)


def catalogue():
  """List of (name, kind of data, function that makes the metric)."""
  out = []

  def add(name, kind, f):
    out.append((name, kind, f))

  # deterministic
  for n in ('Bias', 'MAE', 'MSE', 'RMSE', 'PredictionAverage', 'TargetAverage'):
    add(n, 'real', getattr(det, n))
  add('PredictionAverage(nan)', 'real', lambda: det.PredictionAverage(True))
  add('TargetAverage(nan)', 'real', lambda: det.TargetAverage(True))
  add('RelativeIntensity', 'real', det.RelativeIntensity)
  add('RelativeIntensity(lon)', 'real',
      lambda: det.RelativeIntensity(['longitude']))
  add('WindVectorRMSE', 'real', lambda: det.WindVectorRMSE('a', 'b', 'w'))
  add('WindVectorRMSE2', 'real',
      lambda: det.WindVectorRMSE(['a', 'b'], ['b', 'b'], ['w', 'x']))
  add('WindVectorRMSE3', 'real', lambda: det.WindVectorRMSE('a', 'a', 'w'))
  for c in (0, 1):
    add(f'ACC{c}', 'real', lambda c=c: det.ACC(climatology(c)))
    add(f'PredictionActivity{c}', 'real',
        lambda c=c: det.PredictionActivity(climatology(c)))
  add('ErrorExceedance12', 'real', lambda: det.ErrorExceedance([1.0, 2.0]))
  add('ErrorExceedance1', 'real', lambda: det.ErrorExceedance([1.0]))
  add('ErrorExceedance23', 'real', lambda: det.ErrorExceedance([2.0, 3.0]))
  add('ErrorExceedance(da)', 'real',
      lambda: det.ErrorExceedance(thresholds((1.0, 2.0), 'q')))
  # categorical
  for n in ('CSI', 'Accuracy', 'Recall', 'FalseAlarmRate', 'Precision',
            'F1Score', 'FrequencyBias', 'HSS', 'ETS', 'SEDI'):
    add(n, 'binary', getattr(cat, n))
  for n in ('TruePositives', 'TrueNegatives', 'FalsePositives',
            'FalseNegatives'):
    add(n, 'binary', getattr(cat, n))
  add('CSI12', 'real', lambda: wr.WrappedMetric(cat.CSI(), [_binary()]))
  add('CSI13', 'real',
      lambda: wr.WrappedMetric(cat.CSI(), [_binary(th=(1.0, 3.0))]))
  add('CSI12q', 'real',
      lambda: wr.WrappedMetric(cat.CSI(), [_binary(dim='q')]))
  add('Reliability', 'prob', cat.Reliability)
  add('Reliability2', 'prob',
      lambda: cat.Reliability([-np.inf, 0.3, 0.6, 1.0], 'rb'))
  add('SEEPS', 'precip', lambda: cat.SEEPS(['a', 'b'], seeps_climatology()))
  add('SEEPS-a', 'precip', lambda: cat.SEEPS(['a'], seeps_climatology(), 0.4))
  add('SEEPS-p1', 'precip',
      lambda: cat.SEEPS(['a', 'b'], seeps_climatology(), 0.25, [0.2, 0.3], 0.8))
  add('RPS', 'cdf', lambda: cat.RankedProbabilityScore('bins'))
  # spatial
  for n, w in ((1, False), (3, False), (3, True), ([1, 3], False)):
    add(f'FSS{n}{w}', 'binary', lambda n=n, w=w: spatial.FSS(n, w))
  # ensembles
  for sk in (False, True):
    add(f'CRPS{sk}', 'ens', lambda sk=sk: prob.CRPSEnsemble(skipna_ensemble=sk))
    add(f'CRPSunfair{sk}', 'ens',
        lambda sk=sk: prob.CRPSEnsemble(fair=False, skipna_ensemble=sk))
    add(f'Var{sk}', 'ens', lambda sk=sk: prob.EnsembleVariance(
        skipna_ensemble=sk))
    add(f'RootVar{sk}', 'ens', lambda sk=sk: prob.EnsembleRootMeanVariance(
        skipna_ensemble=sk))
    add(f'UMSE{sk}', 'ens', lambda sk=sk: prob.UnbiasedEnsembleMeanRMSE(
        skipna_ensemble=sk))
    add(f'SSR{sk}', 'ens', lambda sk=sk: prob.UnbiasedSpreadSkillRatio(
        skipna_ensemble=sk))
    add(f'EachRMSE{sk}', 'ens', lambda sk=sk: prob.EnsembleAveragedMetric(
        det.RMSE(), skipna_ensemble=sk))
    add(f'CRPSdist{sk}', 'ensens',
        lambda sk=sk: prob.CRPSEnsembleDistance(skipna_ensemble=sk))
    add(f'ERPS{sk}', 'ens', lambda sk=sk: prob.EnsembleRankedProbabilityScore(
        xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'}),
        xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'}), 'q', 's',
        skipna_ensemble=sk))
    add(f'MeanRMSE{sk}', 'ens', lambda sk=sk: wr.WrappedMetric(
        det.RMSE(), [wr.EnsembleMean('predictions', skipna=sk)]))
    add(f'Weibull{sk}', 'ensbin', lambda sk=sk: wr.WrappedMetric(
        det.MSE(), [wr.WeibullEnsembleToProbabilistic('predictions', skipna=sk)]))
  add('CRPSsort', 'ens', lambda: prob.CRPSEnsemble(use_sort=True))
  add('CRPSdistsort', 'ensens', lambda: prob.CRPSEnsembleDistance(use_sort=True))
  add('CRPSdistunfair', 'ensens', lambda: prob.CRPSEnsembleDistance(fair=False))
  add('ERPSunfair', 'ens', lambda: prob.EnsembleRankedProbabilityScore(
      xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'}),
      xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'}), 'q', 's',
      fair=False))
  add('ERPSleft', 'ens', lambda: prob.EnsembleRankedProbabilityScore(
      xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'}),
      xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'}), 'q', 's',
      right_inclusive=False))
  add('ERPSother', 'ens', lambda: prob.EnsembleRankedProbabilityScore(
      xr.Dataset({v: thresholds((0.5, 3.0), 'q') for v in 'ab'}),
      xr.Dataset({v: thresholds((0.5, 3.0), 'q') for v in 'ab'}), 'q', 's2'))
  add('Wasserstein', 'ensens', prob.WassersteinDistance)
  add('RankHistogram', 'ens', prob.RankHistogram)
  add('EnsErrorExceedance', 'ens', lambda: prob.EnsembleErrorExceedance([1.0]))
  add('EnsErrorExceedance2', 'ens', lambda: prob.EnsembleErrorExceedance([2.0]))
  add('EachBias', 'ens', lambda: prob.EnsembleAveragedMetric(det.Bias()))
  for kw in (dict(is_confident=True), dict(is_confident=False, is_covered=True),
             dict(is_confident=True, is_covered=False, is_jaccard_distant=True),
             dict(is_confident=True, is_jaccard_distant=False,
                  confidence_quantile_boundaries=(0.25, 0.75),
                  jaccard_distance_threshold=0.5)):
    add('Opp' + ','.join(f'{k[3:7]}{v}' for k, v in kw.items()), 'ens',
        lambda kw=kw: prob_opp(kw))
  add('REV4', 'prob', lambda: prob.RelativeEconomicValue(
      ensemble_size=4, cost_loss_ratios=np.array([0.1, 0.4])))
  add('REV2', 'prob', lambda: prob.RelativeEconomicValue(
      ensemble_size=2, cost_loss_ratios=np.array([0.1, 0.4])))
  add('REVcl', 'prob', lambda: prob.RelativeEconomicValue(
      ensemble_size=4, cost_loss_ratios=np.array([0.2])))
  # wrappers
  add('MSErelu', 'real', lambda: wr.WrappedMetric(det.MSE(), [
      wr.Inline('both', lambda d: d - 2.0, 'm2'), wr.ReLU('predictions')]))
  add('MSErelu2', 'real', lambda: wr.WrappedMetric(det.MSE(), [
      wr.Inline('both', lambda d: d - 2.0, 'm2'), wr.ReLU('targets')]))
  add('MSErelu3', 'real', lambda: wr.WrappedMetric(det.MSE(), [
      wr.ReLU('predictions'), wr.Inline('both', lambda d: d - 2.0, 'm2')]))
  add('MAEshift', 'real', lambda: wr.WrappedMetric(det.MAE(), [
      wr.ShiftAlongNewDim('predictions', [0.0, 1.0], 'sh', 'sh')]))
  add('RMSE-a', 'real', lambda: wr.SubselectVariables(det.RMSE(), ['a']))
  add('RMSE-ab', 'real', lambda: wr.SubselectVariables(det.RMSE(), ['b', 'a']))
  add('MSEcdf', 'real', lambda: wr.WrappedMetric(det.MSE(), [
      wr.ContinuousToCDF('both', [1.0, 2.0], 'bins')]))
  add('MSEcdfl', 'real', lambda: wr.WrappedMetric(det.MSE(), [
      wr.ContinuousToCDF('both', [1.0, 2.0], 'bins', right_inclusive=False)]))
  add('MSEbins', 'real', lambda: wr.WrappedMetric(det.MSE(), [
      wr.ContinuousToBins('both', [0.0, 1.0, 2.0], 'intervals')]))
  add('FSSth', 'real', lambda: wr.WrappedMetric(spatial.FSS(3, True),
                                                [_binary()]))
  add('Sel', 'real', lambda: wr.WrappedMetric(det.MAE(), [
      wr.Select('both', sel={'longitude': [0.0, 240.0]})]))
  add('Sel2', 'real', lambda: wr.WrappedMetric(det.MAE(), [
      wr.Select('both', isel={'longitude': [1]})]))
  return out


def prob_opp(kw):
  return cat.Opportunism('number', quantile_climatology(), **kw)


class Direct(base.PerVariableMetric):
  """The ranked probability score of CDFs over a dimension."""

  def __init__(self, dim):
    self.dim = dim

  @property
  def statistics(self):
    return {'rps': cat.RankedProbabilityScore(self.dim)}

  def _values_from_mean_statistics_per_variable(self, values):
    return values['rps']


def variants():
  """Families of metrics that differ in one parameter, sometimes barely.

  Returns a dict: family -> (kind of data, list of functions).
  """
  wrap = lambda *tr, m=det.MSE: lambda: wr.WrappedMetric(m(), list(tr))
  e = 1e-4
  out = {}
  ths = [[1.0, 2.0], [1.0 - e, 2.0], [1.0, 2.0 - e], [1.0], [2.0, 3.0],
         [1.0, 1.5, 2.0], [1.0 - 1e-8, 2.0]]
  w3 = ('both', 'predictions', 'targets')
  out['binary'] = 'real', [
      *(wrap(wr.ContinuousToBinary('both', th, 'th')) for th in ths),
      *(wrap(wr.ContinuousToBinary('both', th, 'th')) for th in (1.0, 1.5)),
      wrap(wr.ContinuousToBinary('both', [1.0, 2.0], 'q')),
      *(wrap(wr.ContinuousToBinary(w, [1.5], 'th')) for w in w3)]
  out['cdf'] = 'real', [
      *(wrap(wr.ContinuousToCDF('both', th, 'th')) for th in ths),
      wrap(wr.ContinuousToCDF('both', [1.0, 2.0], 'q')),
      wrap(wr.ContinuousToCDF('both', [1.0, 2.0], 'th', right_inclusive=False)),
      *(wrap(wr.ContinuousToCDF(w, [1.5], 'th')) for w in w3)]
  out['bins'] = 'real', [
      *(wrap(wr.ContinuousToBins('both', [0.0] + th, 'th')) for th in ths),
      wrap(wr.ContinuousToBins('both', [0.0, 1.0, 2.0], 'q')),
      *(wrap(wr.ContinuousToBins(w, [0.0, 1.5], 'th')) for w in w3)]
  out['mixed'] = 'real', [
      wrap(wr.ContinuousToCDF('both', [1.0, 2.0], 'th')),
      wrap(wr.ContinuousToBinary('both', [1.0, 2.0], 'th')),
      wrap(wr.Inline('both', lambda d: d.clip(1.0, 2.0), '[1.0, 2.0]'))]
  out['exceedance'] = 'real', [
      lambda th=th: det.ErrorExceedance(th) for th in ths]
  out['ensemble exceedance'] = 'ens', [
      lambda th=th: prob.EnsembleErrorExceedance(th) for th in ths]
  at = np.array([1.0, 2.0, 1.5])
  arr = lambda v, *d: xr.DataArray(v, dims=d, coords={x: COORDS[x] for x in d})
  long = np.linspace(0.0, 4.0, 1500)
  bump = long.copy()
  bump[700:800] += 0.3
  lda = lambda v: xr.DataArray(v, dims='th')
  maps = [arr(at, 'latitude'), arr(at, 'longitude'), arr(at[::-1], 'latitude'),
          arr(at[:, None] + at[None], 'latitude', 'longitude'),
          xr.Dataset({v: arr(at + (v == 'a'), 'latitude') for v in 'ab'}),
          xr.Dataset({v: arr(at + (v == 'b'), 'latitude') for v in 'ab'}),
          xr.Dataset({v: arr(at, 'latitude') for v in 'ab'})]
  for name, kind, cls in (('exceedance', 'real', det.ErrorExceedance),
                          ('ensemble exceedance', 'ens', prob.EnsembleErrorExceedance)):
    out[f'{name} maps'] = kind, [lambda th=th, cls=cls: cls(th) for th in maps]
    out[f'{name} long'] = kind, [
        lambda th=th, cls=cls: cls(th) for th in (lda(long), lda(bump))]
  out['shift'] = 'real', [
      wrap(wr.ShiftAlongNewDim('both', s, d, f'{d}{s}'), wr.ReLU('both'))
      for s, d in (([-1.0, -2.0], 'sh'), ([-1.0, -2.0 - e], 'sh'),
                   ([-1.0, -2.0], 'q'), ([-1.0], 'sh'), (-1.0, 'sh'))]
  out['select'] = 'real', [
      wrap(wr.Select('both', **kw)) for kw in (
          dict(sel={'longitude': [0.0, 240.0]}),
          dict(sel={'longitude': [0.0, 120.0]}),
          dict(sel={'longitude': [110.0]}, sel_kwargs={'method': 'nearest'}),
          dict(sel={'longitude': [110.0]}, sel_kwargs={'method': 'ffill'}),
          dict(isel={'longitude': [0, 2]}),
          dict(isel={'longitude': np.array([1, 2])}),
          dict(isel={'longitude': [0, 2]}, sel={'latitude': LATS[:2]}),
          dict(isel={'longitude': [0, 2]}, sel={'latitude': LATS[1:]}))]
  pick = lambda i, **kw: wrap(wr.Select('both', isel={'longitude': i}, **kw))
  near = lambda x: wrap(wr.Select('both', sel={'longitude': np.array([x])},
                                  sel_kwargs={'method': 'nearest'}))
  out['selection arrays'] = 'real', [
      pick(np.array([0, 2])), pick([0, 2]),
      pick(xr.DataArray([0, 2], dims='longitude')),
      pick(xr.DataArray([0, 2], dims='p')), pick(xr.DataArray([0, 2], dims='r')),
      pick(xr.DataArray([0, 2], dims='u', coords={'u': [5, 6]})),
      pick(xr.DataArray([0, 2], dims='u', coords={'u': [6, 5]})),
      pick(xr.Variable('p', [1, 2])), near(60.0 - 1e-8), near(60.0 + 1e-8),
      pick(0), pick(0, isel_kwargs={'drop': True})]
  out['rename'] = 'real', [
      wrap(wr.Rename('both', r)) for r in (
          {'longitude': 'l1'}, {'longitude': 'l2'}, {'latitude': 'l1'},
          {'longitude': 'latitude', 'latitude': 'longitude'})]
  out['stack'] = 'real', [
      wrap(wr.StackToNewDimension('both', d, n)) for d, n in (
          (['latitude', 'longitude'], 's'), (['longitude', 'latitude'], 's'),
          (['latitude', 'longitude'], 'r'),
          (['latitude', 'longitude'], 'latitude'),
          (['latitude', 'longitude'], 'longitude'))]
  suffixed = lambda m, s: lambda: wr.WrappedMetric(
      m(), [wr.ReLU('both')], unique_name_suffix=s)
  out['own suffix'] = 'real', [
      suffixed(m, s) for s in ('s', 't') for m in (
          lambda: det.ErrorExceedance([1.0]), lambda: det.ErrorExceedance([2.0]),
          det.MSE, lambda: wr.SubselectVariables(det.MSE(), ['a']),
          lambda: wr.WrappedMetric(det.MSE(), [wr.Inline(
              'both', lambda d: d - 2.0, 'm2')]))]
  many = np.zeros(1500, int)
  odd = many.copy()
  odd[700:800] = 1
  out['long selection'] = 'real', [
      wrap(wr.Select('both', isel={'longitude': f(i)})) for i in (many, odd)
      for f in (lambda i: i, lambda i: xr.DataArray(i, dims='longitude'), list)]
  out['select which'] = 'real', [
      lambda w=w, i=i: wr.WrappedMetric(det.MAE(), [
          wr.Inline('both', lambda d: d.drop_vars('longitude'), 'nolon'),
          wr.Select(w, isel={'longitude': i})])
      for w, i in (('both', [0]), ('predictions', 0), ('targets', 0),
                   ('targets', 1))]
  out['order'] = 'real', [
      wrap(*tr) for tr in itertools.permutations((
          wr.ReLU('both'), wr.Inline('both', lambda d: d - 2.0, 'm2'),
          wr.Inline('both', lambda d: 3.0 - d, 'flip')))]
  out['relu'] = 'real', [wrap(
      wr.Inline('both', lambda d: d - 2.0, 'm2'), wr.ReLU(w)) for w in w3]
  out['ensemble mean'] = 'ens', [
      *(wrap(wr.EnsembleMean('predictions', skipna=s, **kw))
        for s in (False, True)
        for kw in ({}, dict(skip_if_ensemble_dim_missing=True))),
      wrap(wr.EnsembleMean('predictions'), wr.ReLU('predictions')),
      lambda: prob.EnsembleAveragedMetric(det.MSE()),
      lambda: prob.EnsembleAveragedMetric(det.MSE(), skipna_ensemble=True),
      lambda: prob.EnsembleAveragedMetric(det.MAE())]
  out['subselect'] = 'real', [
      lambda v=v, m=m: wr.SubselectVariables(m(), v)
      for v in (['a'], ['b'], ['a', 'b'], ['b', 'a'])
      for m in (det.MSE, det.RMSE)]
  out['wind'] = 'real', [
      lambda a=a: det.WindVectorRMSE(*a) for a in (
          ('a', 'b', 'w'), ('a', 'a', 'w'), ('b', 'b', 'w'), ('a', 'b', 'x'),
          (['a', 'a'], ['b', 'a'], ['w', 'x']),
          (['a', 'a'], ['a', 'b'], ['w', 'x']))]
  u, v = LONG
  out['long names'] = 'long', [
      *(lambda x=x: wr.SubselectVariables(det.MSE(), x) for x in ([u], [v])),
      *(lambda a=a: det.WindVectorRMSE(*a) for a in (
          (u, v, 'w'), (u, u, 'w'), (v, v, 'w'), (u, v, u), (u, v, v)))]
  sc = seeps_climatology()
  out['seeps'] = 'precip', [
      lambda a=a, kw=kw: cat.SEEPS(a, sc, **kw) for a, kw in (
          (['a', 'b'], {}), (['b', 'a'], {}), (['b'], {}),
          (['a', 'b'], dict(dry_threshold_mm=0.1)),
          (['a', 'b'], dict(dry_threshold_mm=0.1 - e)),
          (['a', 'b'], dict(dry_threshold_mm=[0.1, 0.5])),
          (['a', 'b'], dict(dry_threshold_mm=[0.5, 0.1])),
          (['a', 'b'], dict(min_p1=0.3)), (['a', 'b'], dict(max_p1=0.7)),
          (['a', 'b'], dict(min_p1=[0.2, 0.3])),
          (['a', 'b'], dict(min_p1=[0.3, 0.2])),
          (['a', 'b'], dict(max_p1=[0.6, 0.7])),
          (['a', 'b'], dict(min_p1=0.275 - e)), (['a', 'b'], dict(min_p1=0.275 + e)),
          (['a', 'b'], dict(max_p1=0.725 - e)), (['a', 'b'], dict(max_p1=0.725 + e)))]
  out['reliability'] = 'prob', [
      lambda b=b: cat.Reliability(b, 'rb') for b in (
          [-np.inf, 0.25, 0.6, 1.0], [-np.inf, 0.25 - e, 0.6, 1.0],
          [-np.inf, 0.3, 0.75, 1.0], [-np.inf, 0.3, 0.75 - e, 1.0])] + [
              lambda: cat.Reliability([-np.inf, 0.25, 0.6, 1.0], 'q')]
  ratios = np.array([0.1, 0.4])
  rev = lambda **kw: lambda: prob.RelativeEconomicValue(
      cost_loss_ratios=ratios, **kw)
  out['economic value'] = 'prob', [
      rev(ensemble_size=4), rev(ensemble_size=2), rev(ensemble_size=5),
      *(rev(probability_thresholds=np.array(th), statistic_suffix=str(th))
        for th in ([0.25, 0.5], [0.25 - e, 0.5], [0.25, 0.5 - e], [0.5]))]
  out['fss'] = 'binary', [
      lambda n=n, w=w: spatial.FSS(n, w) for n in (1, 3, [1, 3], [3])
      for w in (False, True)]
  def erps(p, t, suffix, **kw):
    q = lambda th: xr.Dataset({v: thresholds(th, 'q') for v in 'ab'})
    return lambda: prob.EnsembleRankedProbabilityScore(q(p), q(t), 'q', suffix,
                                                       **kw)
  out['rps'] = 'ens', [
      erps((1.0, 2.0), (1.0, 2.0), 's'), erps((1.0, 2.5), (1.0, 2.0), 's2'),
      erps((1.0, 2.0), (1.0, 2.5), 's3'),
      erps((1.0, 2.0), (1.0, 2.0), 's', fair=False),
      erps((1.0, 2.0), (1.0, 2.0), 's', right_inclusive=False),
      erps((1.0, 2.0), (1.0, 2.0), 's', fair=False, right_inclusive=False),
      erps((1.0, 2.0), (1.0, 2.0), 's', skipna_ensemble=True)]
  opp = lambda kw: lambda: cat.Opportunism('number', quantile_climatology(),
                                           **kw)
  flags = ('is_confident', 'is_covered', 'is_jaccard_distant')
  out['opportunism'] = 'ens', [
      opp({k: v for k, v in zip(flags, x) if v is not None})
      for x in itertools.product((False, True), *[(None, False, True)] * 2)]
  opts = dict(is_confident=True, is_covered=False, is_jaccard_distant=True)
  out['opportunism parameters'] = 'ens', [
      opp(dict(opts, **kw)) for kw in (
          {}, dict(confidence_quantile_boundaries=(0.25, 0.75)),
          dict(confidence_quantile_boundaries=(0.1, 0.75)),
          dict(confidence_quantile_boundaries=(0.25, 0.9)),
          dict(jaccard_distance_threshold=0.5),
          dict(jaccard_distance_threshold=0.5 + e))]
  dims = ('number', 'realization')
  kinds = (
      ('two ens', (
          prob.CRPSEnsemble, lambda d: prob.CRPSEnsemble(d, fair=False),
          lambda d: prob.CRPSEnsemble(d, use_sort=True),
          prob.EnsembleVariance, prob.EnsembleRootMeanVariance,
          prob.UnbiasedEnsembleMeanRMSE, prob.UnbiasedSpreadSkillRatio,
          lambda d: prob.RankHistogram(ensemble_dim=d),
          lambda d: prob.EnsembleErrorExceedance([1.0], d),
          lambda d: prob.EnsembleAveragedMetric(det.MSE(), ensemble_dim=d),
          lambda d: wr.WrappedMetric(det.MSE(), [
              wr.EnsembleMean('predictions', d)]),
          lambda d: wr.WrappedMetric(det.MSE(), [
              wr.ContinuousToBinary('both', 2.0, 'th'),
              wr.WeibullEnsembleToProbabilistic('predictions', d)]),
          lambda d: cat.Opportunism(d, quantile_climatology(), **opts))),
      ('two ensens', (
          prob.CRPSEnsembleDistance, prob.WassersteinDistance,
          lambda d: prob.CRPSEnsembleDistance(d, fair=False),
          Direct)))
  for kind, ms in kinds:
    for i, m in enumerate(ms):
      out[f'{kind} {i}'] = kind, [lambda d=d, m=m: m(d) for d in dims]
  q = xr.Dataset({v: thresholds((1.0, 2.0), 'q') for v in 'ab'})
  skips = (
      ('holes', (
          lambda s: prob.CRPSEnsemble(skipna_ensemble=s),
          lambda s: prob.CRPSEnsemble(fair=False, skipna_ensemble=s),
          lambda s: prob.EnsembleVariance(skipna_ensemble=s),
          lambda s: prob.EnsembleRootMeanVariance(skipna_ensemble=s),
          lambda s: prob.UnbiasedEnsembleMeanRMSE(skipna_ensemble=s),
          lambda s: prob.UnbiasedSpreadSkillRatio(skipna_ensemble=s),
          lambda s: prob.EnsembleAveragedMetric(det.MSE(), skipna_ensemble=s),
          lambda s: wr.WrappedMetric(det.MSE(), [
              wr.EnsembleMean('predictions', skipna=s)]),
          lambda s: prob.EnsembleRankedProbabilityScore(
              q, q, 'q', 's', skipna_ensemble=s),
          lambda s: prob.EnsembleRankedProbabilityScore(
              q, q, 'q', 's', skipna_ensemble=s, fair=False))),
      ('holesens', (
          lambda s: prob.CRPSEnsembleDistance(skipna_ensemble=s),
          lambda s: prob.UnbiasedEnsembleMeanRMSE(skipna_ensemble=s))),
      ('holesbin', (lambda s: wr.WrappedMetric(det.MSE(), [
          wr.WeibullEnsembleToProbabilistic('predictions', skipna=s)]),)))
  for kind, ms in skips:
    for i, m in enumerate(ms):
      out[f'{kind} {i}'] = kind, [lambda s=s, m=m: m(s) for s in (False, True)]
  out['passthrough'] = 'real', [
      lambda c=c, m=m: m(c) for c in (False, True)
      for m in (det.PredictionAverage, det.TargetAverage)]
  return out
