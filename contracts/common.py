"""Builders shared by the contracts (both modes)."""
from pyvc.harness import contract  # noqa: F401

STATS = 'seismic.correlate.stats'
PCP = 'seismic.monitor.post_corr_process'


def corr_header(c, npts, sr=None, start_lag=None, **extra):
    """a correlation header with free lag axis"""
    Stats = c.fn(STATS + ':CorrStats')
    if sr is None:
        sr = c.real('sampling_rate', positive=True, den=1, gen=(1, 8))
    if start_lag is None:
        start_lag = c.real('start_lag', gen=(-8, 4))
    h = dict(sampling_rate=sr, start_lag=start_lag, npts=npts)
    h.update(extra)
    return Stats(h)


def dv_header(c, t=None, station='STA-STA', channel='HHZ-HHZ', network='N-N',
           **kw):
    h = dict(network=network, station=station, channel=channel,
             location='-')
    h.update(kw)
    if t is not None:
        UTC = c.ext('obspy', 'UTCDateTime')
        h.update(corr_start=[UTC(86400. * k) for k in range(t)],
                 corr_end=[UTC(86400. * k + 3600) for k in range(t)])
    return c.fn(STATS + ':CorrStats')(h)
