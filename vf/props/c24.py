"""C24: datetimes denote the same instant in every time zone."""
import os
import re
from datetime import datetime, timedelta, timezone as fixed

from scheme import DateTime, Field
from scheme.timezone import LOCAL, UTC, FixedOffsetTimezone, current_timestamp

from vf.codec import Off
from vf.engine import Discard
from vf.model import IN, OUT
from vf import gens, oracle
from vf.oracle import fail, require, require_same
from vf.prop import Finding, Section

# minutes east of UTC: standard, daylight; changes to and from daylight time: month, week, weekday (Sunday is 0), wall clock hour
TABLE = {
    'EST5EDT,M3.2.0,M11.1.0': (-300, -240, (3, 2, 0, 2), (11, 1, 0, 2)),
    'CET-1CEST,M3.5.0,M10.5.0/3': (60, 120, (3, 5, 0, 2), (10, 5, 0, 3)),
    'AEST-10AEDT,M10.1.0,M4.1.0/3': (600, 660, (10, 1, 0, 2), (4, 1, 0, 3)),
    'UTC0': (0, None, None, None),
    'LHST-10:30LHDT-11,M10.1.0,M4.1.0': (630, 660, (10, 1, 0, 2), (4, 1, 0, 2)),
    'NST3:30NDT,M3.2.0,M11.1.0': (-210, -150, (3, 2, 0, 2), (11, 1, 0, 2)),
    'IST-5:30': (330, None, None, None),
    'XST11': (-660, None, None, None),
}
ZONES = sorted(TABLE)

RULE = ('Each of eight workers runs in a time zone of its own, with and without daylight saving, north and south, with odd offsets. '
    'Datetimes (naive, in UTC, in fixed offsets, in the local zone; anywhere in years 2 to 9998 and close to changes of daylight '
    'saving) are processed both ways by datetime fields, local or UTC, with bounds; result, text, refusals and the description, '
    'rebuilt, are compared with instants computed by an independent implementation of the rules of the zone. Non-trivial: the '
    'instant is not the epoch.')
ASSUMPTIONS = ('Known finding: local times in the hour repeated at the end of daylight saving are taken for either; they are left '
    'out. Local times skipped at its start do not exist and are left out too.', 'Zones whose rules changed over time are not used: '
    'the local zone knows one pair of offsets. In zones with daylight saving times are after 1970, when the rules of the C library start.')

MINUTE = timedelta(minutes=1)
HOUR = timedelta(hours=1)


def zone():
    return os.environ.get('TZ', 'UTC0')


def wall(year, rule):
    month, week, weekday, hour = rule
    first = datetime(year, month, 1)
    day = 1 + (weekday - (first.weekday() + 1)) % 7 + 7 * (week - 1)
    last = (datetime(year + month // 12, month % 12 + 1, 1) - timedelta(1)).day
    while day > last:
        day -= 7
    return datetime(year, month, day, hour)


def offset_at(instant):
    """Minutes east of UTC at a naive UTC instant."""
    standard, daylight, start, end = TABLE[zone()]
    if daylight is None:
        return standard
    year = (instant + standard * MINUTE).year
    a = wall(year, start) - standard * MINUTE
    b = wall(year, end) - daylight * MINUTE
    inside = a <= instant < b if a < b else instant < b or instant >= a
    return daylight if inside else standard


def local(instant):
    return instant + offset_at(instant) * MINUTE


def instants(naive):
    """The instants a local time may denote."""
    standard, daylight, _, _ = TABLE[zone()]
    found = []
    for offset in sorted(set((standard, daylight)) - set((None,))):
        instant = naive - offset * MINUTE
        if offset_at(instant) == offset:
            found.append(instant)
    return found


def clear(instant):
    """Whether the local time of the instant denotes it alone."""
    return instants(local(instant)) == [instant]


def write(instant):
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % instant.timetuple()[:6]


# --- generation -------------------------------------------------------------------------------

STEPS = (0, 1, -1, 60, -60, 1799, 1800, 3599, 3600, 3601, -3599, -3600, -3601, 5400, 7199, 7200, -7200, 86400, -86400, 10800, -10800)


def an_instant(d, near=None):
    if near is not None and d.bool(0.5):
        instant = near + timedelta(seconds=d.choice(STEPS))
    else:
        mode = d.draw(3)
        standard, daylight, start, end = TABLE[zone()]
        if mode <= 1 and daylight is not None:
            year = d.int(1972, 2037) if d.bool(0.8) else d.int(1972, 9990)
            instant = d.choice((wall(year, start) - standard * MINUTE, wall(year, end) - daylight * MINUTE))
            instant += timedelta(seconds=d.choice(STEPS))
        else:
            instant = gens.a_naive(d)
    instant = max(datetime(2, 1, 3), min(instant, datetime(9998, 12, 28)))
    if TABLE[zone()][1] is not None:
        instant = max(instant, datetime(1971, 1, 3))
    if not clear(instant):
        raise Discard()
    return instant


FORMS = ('naive', 'utc', 'fixed', 'LOCAL', 'UTC', 'offset', 'timezone', 'text')


def gen(d):
    utc = d.bool(0.35)
    first = an_instant(d)
    case = {'zone': zone(), 'utc': utc, 'values': [], 'bounds': {}}
    for name in d.subset(('minimum', 'maximum'), 0.4):
        case['bounds'][name] = (an_instant(d, first), d.choice(FORMS), d.int(-14, 14) * 60 + d.choice((0, 0, 30, 45)))
    for _ in range(d.int(1, 4)):
        instant, form = an_instant(d, first), d.choice(FORMS)
        if form != 'text' and d.bool(0.2):
            instant = instant.replace(microsecond=d.choice((1, 500000, 999999)))
        case['values'].append((instant, form, d.int(-14, 13) * 60 + d.choice((0, 0, 30, 45))))
    return case


def present(instant, form, minutes, utc):
    """The instant as a python value."""
    if form == 'naive':
        return instant if utc else local(instant)
    if form == 'utc':
        return instant.replace(tzinfo=Off(0))
    if form == 'fixed':
        return (instant + minutes * MINUTE).replace(tzinfo=Off(minutes))
    if form == 'LOCAL':
        return local(instant).replace(tzinfo=LOCAL)
    if form == 'UTC':
        return instant.replace(tzinfo=UTC)
    if form == 'offset':
        return (instant + minutes * MINUTE).replace(tzinfo=FixedOffsetTimezone(minutes))
    if form == 'timezone':
        return (instant + minutes * MINUTE).replace(tzinfo=fixed(minutes * MINUTE))
    return write(instant)


def check(case):
    if case['zone'] != zone():
        raise Discard()
    utc = case['utc']
    params = dict((k, present(i, form, minutes, utc)) for k, (i, form, minutes) in case['bounds'].items())
    field = DateTime(utc=utc, **params)
    described = field.describe()
    for k, (instant, _, _) in case['bounds'].items():
        require_same(write(instant), described.get(k), 'described %s of %r' % (k, params))
    rebuilt = Field.reconstruct(described)
    labels = [case['zone'], 'utc' if utc else 'local']
    for instant, form, minutes in case['values']:
        value = present(instant, form, minutes, utc)
        token = None
        if 'minimum' in case['bounds'] and instant < case['bounds']['minimum'][0]:
            token = 'minimum'
        elif 'maximum' in case['bounds'] and instant > case['bounds']['maximum'][0]:
            token = 'maximum'
        labels.append(token or 'within')
        labels.append(form)
        for f in (field, rebuilt):
            for phase, serialized in ((IN, True), (IN, False), (OUT, True), (OUT, False)):
                if form == 'text' and not (phase == IN and serialized):
                    continue
                what = 'process(%r, %s, %r) of %r in %s' % (value, phase, serialized, f, zone())
                got = oracle.run(f.process, value, phase, serialized)
                if token:
                    require(got[0] == 'error', '%s returned %r, expected a %s error', what, got[1], token)
                    require(got[1].errors[0]['token'] == token, '%s failed with %r, expected %s', what, got[1].errors, token)
                    bound = write(case['bounds'][token][0])
                    require(bound in got[1].errors[0]['message'], '%s failed with %r, expected %s', what, got[1].errors, bound)
                    continue
                require(got[0] == 'ok', '%s was rejected: %r', what, got[0] != 'ok' and got[1].errors)
                if phase == OUT and serialized:
                    require_same(write(instant), got[1], what)
                    continue
                result = got[1]
                require(isinstance(result, datetime) and result.tzinfo is not None, '%s returned %r', what, result)
                naive = instant if utc else local(instant)
                require(result.replace(tzinfo=None) == naive, '%s returned %r, expected the clock to show %s', what, result, naive)
                require((result - result.utcoffset()).replace(tzinfo=None) == instant, '%s returned %r, which is not %s UTC', what, result, instant)
                if form not in ('naive', 'text'):
                    require(result == value, '%s returned %r, which does not equal it', what, result)
                again = oracle.run(f.process, result, OUT, True)
                require(again[0] == 'ok' and again[1] == write(instant), '%s serializes as %r', what, again)
    return labels


def gen_zone(d):
    return {'zone': zone(), 'instant': an_instant(d), 'offset': d.int(-14, 14) * 60 + d.choice((0, 1, 30, 45))}


def check_zone(case):
    if case['zone'] != zone():
        raise Discard()
    instant = case['instant']
    offset = offset_at(instant) * MINUTE
    standard, daylight, _, _ = TABLE[zone()]
    naive = local(instant)
    aware = naive.replace(tzinfo=LOCAL)
    require_same(offset, LOCAL.utcoffset(naive), 'local offset at %s in %s' % (naive, zone()))
    require_same(offset - standard * MINUTE, LOCAL.dst(naive), 'daylight saving at %s in %s' % (naive, zone()))
    converted = instant.replace(tzinfo=UTC).astimezone(LOCAL)
    require(converted.replace(tzinfo=None) == naive, '%s UTC became %s in %s', instant, converted, zone())
    require(aware.astimezone(UTC).replace(tzinfo=None) == instant, '%s in %s became %s', naive, zone(), aware.astimezone(UTC))
    require(aware == instant.replace(tzinfo=Off(0)), '%s in %s is not %s UTC', naive, zone(), instant)
    names = re.match(r'([A-Z]+)[-+]?[0-9:]+([A-Z]*)', zone())
    name = names.group(2 if offset != standard * MINUTE else 1)
    require_same(name, LOCAL.tzname(naive), 'name of the local zone at %s in %s' % (naive, zone()))
    require_same(name, aware.tzname(), 'name of the zone of %r' % (aware,))
    require_same('UTC', UTC.tzname(naive), 'name of UTC')
    require_same('Named', FixedOffsetTimezone(case['offset'], 'Named').tzname(naive), 'name of a named zone')
    other = FixedOffsetTimezone(case['offset'])
    if case['offset'] >= 0 and case['offset'] % 60 in (0, 30, 45) or case['offset'] % 60 == 0:
        hours, minutes = divmod(abs(case['offset']), 60)
        require_same('%s%02d%s' % ('-' if case['offset'] < 0 else '+', hours, ':%02d' % minutes if minutes else ''), other.tzname(naive),
            'name of a zone %d minutes off' % case['offset'])
    there = aware.astimezone(other)
    require(there.replace(tzinfo=None) == instant + case['offset'] * MINUTE, '%s UTC became %s', instant, there)
    require_same(timedelta(0), UTC.utcoffset(naive), 'offset of UTC')
    for tz in (None, UTC, LOCAL, other):
        now = current_timestamp(tz)
        require(now.tzinfo is (tz or UTC), 'current_timestamp(%r) is in %r', tz, now.tzinfo)
        real = datetime.now(fixed.utc)
        if clear(real.replace(tzinfo=None)) and clear(real.replace(tzinfo=None) - 10 * MINUTE):
            require(abs(now - real) < 5 * MINUTE, 'current_timestamp(%r) is %r', tz, now)
    return [case['zone'], 'daylight' if offset != standard * MINUTE else 'standard']


def repeated():
    """Run in a zone of its own: 01:30 occurs twice on this day."""
    import subprocess, sys
    script = ('import sys; sys.path.insert(0, %r)\nfrom scheme import DateTime\n'
        'a = [DateTime().serialize(DateTime().unserialize("2015-11-01T%%02d:30:00Z" %% h)) for h in (5, 6)]\n'
        'sys.exit(0 if a == ["2015-11-01T05:30:00Z", "2015-11-01T06:30:00Z"] else 3)\n') % os.environ.get('VF_REPO', '/repo')
    env = dict(os.environ, TZ='EST5EDT,M3.2.0,M11.1.0')
    return subprocess.call([sys.executable, '-W', 'ignore', '-c', script], env=env) == 3


FINDINGS = [Finding('repeated-hour', 'a local datetime in the hour repeated at the end of daylight saving moves by an hour', repeated)]

SECTIONS = [Section('instants', gen, check, 16000), Section('zone', gen_zone, check_zone, 8000)]
