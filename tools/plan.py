"""What each check runs."""

def lst(profile, shards, n, ops, **kw):
    return dict(mode='list', profile=profile, shards=shards, n=n, ops=ops, spec='RankTrace', watchdog='40s', **kw)

PLAN = {}
for prop, profile in dict(C01='map', C02='rank', C03='struct', C04='place', C05='maint', C06='registry',
                          C16='copy', C17='page', C18='iso').items():
    PLAN[prop] = {
        'quick': {'traces': [lst(profile, 24, 15, 100)]},
        'thorough': {'traces': [lst(profile, 160, 20, 150)]},
    }

# all sequences of operations within small constants, see RankGen.tla
def listgen(name, shards, deep=False):
    return dict(mode='listgen', profile='gen-' + name, shards=shards, spec='RankTrace', watchdog='40s',
                gen=dict(spec='RankGen.tla', cfg='RankGen_%s%s.cfg' % (name, '_thorough' if deep else ''), exhaustive=True))

for prop, name in dict(C01='map', C02='rank', C03='struct', C04='place', C05='maint').items():
    PLAN[prop]['quick']['traces'].append(listgen(name, 24 if name == 'map' else 12))
    PLAN[prop]['thorough']['traces'].append(listgen(name, 96, True))
    PLAN[prop]['quick']['mc'] = [dict(spec='RankDB.tla', cfg='RankDB_quick.cfg', workers=2, heap='4g')]
    PLAN[prop]['thorough']['mc'] = [dict(spec='RankDB.tla', cfg='RankDB_thorough.cfg', workers=3, heap='6g')]
PLAN['C01']['thorough']['mc'].append(dict(spec='RankDB.tla', cfg='RankDB_batch.cfg', workers=3, heap='6g', timeout=1500))

# large lists, see Blocks.tla
def bulk(profile, shards, n, ops):
    return dict(mode='bulk', profile=profile, shards=shards, n=n, ops=ops, spec='BulkTrace', watchdog='90s')

for prop, profile in dict(C01='map', C02='rank', C03='struct', C04='place', C05='maint').items():
    PLAN[prop]['quick']['traces'].append(bulk(profile, 12, 8, 30))
    PLAN[prop]['thorough']['traces'].append(bulk(profile, 100, 12, 40))
    for tier in ('quick', 'thorough'):
        PLAN[prop][tier]['mc'].append(dict(spec='BlocksMC.tla', cfg='BlocksMC.cfg', workers=2))

# --- write-behind saver
def lazy(profile, shards, n, **kw):
    return dict(mode='lazy', profile=profile, shards=shards, n=n, spec='LazyTrace', watchdog='60s', **kw)

def lazygen(shards, num):
    return dict(mode='lazy', profile='script', shards=shards, spec='LazyTrace', watchdog='60s',
                gen=dict(spec='LazyGen.tla', cfg='LazyGen.cfg', num=num, depth=170))

def mc(spec, cfg=None, **kw):
    return dict(spec=spec + '.tla', cfg=(cfg or spec) + '.cfg', **kw)

for prop, profile in dict(C10='read', C11='order', C12='bound').items():
    PLAN[prop] = {
        'quick': {'mc': [mc('LazySaver', 'LazySaver_quick')], 'traces': [lazygen(8, 30), lazy(profile, 16, 60)]},
        'thorough': {'mc': [mc('LazySaver', 'LazySaver_medium', workers=3), mc('LazySaver', 'LazySaver_thorough', workers=4, heap='8g')]
                     + ([mc('LazySaver', 'LazySaver_live', workers=4)] if prop != 'C10' else []),
                     'traces': [lazygen(40, 80), lazy(profile, 100, 120)]},
    }
# --- concurrent calls on lists
def conc(profile, shards, n, **kw):
    return dict(mode='conc', profile=profile, shards=shards, n=n, spec='ConcTrace', watchdog='60s', **kw)

for prop, profile in dict(C07='finish', C08='linear').items():
    PLAN[prop] = {
        'quick': {'mc': [mc('RankConc', 'RankConc_quick')], 'traces': [conc(profile, 24, 60)]},
        'thorough': {'mc': [mc('RankConc', 'RankConc_locks' if prop == 'C07' else 'RankConc_thorough', workers=6, heap='10g', timeout=2500)],
                     'traces': [conc(profile, 200, 90)]},
    }
# --- failing storage
def fault(shards, n, ops, **kw):
    return dict(mode='fault', shards=shards, n=n, ops=ops, spec='FaultTrace', watchdog='40s', **kw)

PLAN['C09'] = {'quick': {'traces': [fault(24, 25, 80)]}, 'thorough': {'traces': [fault(200, 40, 120)]}}
# --- stores
def store(profile, shards, n, ops, **kw):
    return dict(mode='store', profile=profile, shards=shards, n=n, ops=ops, spec='MapTrace', watchdog='60s', **kw)

PLAN['C13'] = {'quick': {'traces': [store('maxsize', 24, 30, 60)]}, 'thorough': {'traces': [store('maxsize', 160, 60, 80)]}}
for tier, sfx in (('quick', ''), ('thorough', '_thorough')):
    PLAN['C13'][tier]['mc'] = [mc('MaxSize', 'MaxSize_' + tier)]
    PLAN['C13'][tier]['traces'].append(store('maxscript', 16 if tier == 'quick' else 64, 1, 1,
                                             gen=dict(spec='MaxGen.tla', cfg='MaxGen%s.cfg' % sfx, exhaustive=True)))
PLAN['C15'] = {'quick': {'traces': [store('backend', 24, 12, 150)]}, 'thorough': {'traces': [store('backend', 200, 21, 250)]}}
def retry(shards, cfg, **kw):
    return dict(mode='retry', shards=shards, spec='RetryTrace', watchdog='60s', gen=dict(spec='RetryGen.tla', cfg=cfg, exhaustive=True), **kw)

PLAN['C14'] = {'quick': {'traces': [retry(8, 'RetryGen.cfg')]}, 'thorough': {'traces': [retry(16, 'RetryGen_thorough.cfg')]}}
# --- elements
def elem(profile, shards, n, **kw):
    return dict(mode='elem', profile=profile, shards=shards, n=n, spec='ElemTrace', watchdog='60s', **kw)

def elemgen(shards, cfg):
    return elem('small', shards, 1, gen=dict(spec='ElemGen.tla', cfg=cfg, exhaustive=True))

PLAN['C22'] = {'quick': {'traces': [elemgen(16, 'ElemGen.cfg'), elem('random', 16, 250), elem('large', 8, 5, heap='3g', xss='900m')]},
               'thorough': {'traces': [elemgen(16, 'ElemGen.cfg'), elemgen(16, 'ElemGen_four.cfg'), elemgen(32, 'ElemGen_deep.cfg'), elem('random', 200, 400), elem('large', 60, 12, heap='3g', xss='900m')]}}
# --- HTTP interface
def api(profile, shards, n, ops, **kw):
    return dict(mode='api', profile=profile, shards=shards, n=n, ops=ops, spec='ApiTrace', watchdog='60s', **kw)

PLAN['C19'] = {'quick': {'traces': [api('auth', 16, 8, 120)]}, 'thorough': {'traces': [api('auth', 160, 20, 200)]}}
PLAN['C20'] = {'quick': {'traces': [api('plain', 14, 8, 120), api('faulty', 10, 8, 80)]}, 'thorough': {'traces': [api('plain', 160, 20, 200), api('auth', 40, 10, 200), api('faulty', 80, 20, 120)]}}
PLAN['C16']['quick']['traces'].extend([api('backup', 8, 6, 80), api('bkfault', 8, 6, 80)])
PLAN['C16']['thorough']['traces'].extend([api('backup', 80, 20, 120), api('bkfault', 80, 20, 120)])
# --- stopping the server, and starting it again
def restart(shards, n, ops):
    return dict(mode='restart', profile='restart', shards=shards, n=n, ops=ops, spec='ApiTrace', watchdog='60s')
PLAN['C24'] = {'quick': {'mc': [dict(spec='Stop.tla', cfg='Stop_%s.cfg' % c, workers=2) for c in ('quick', 'plain')], 'traces': [restart(16, 20, 30)]},
               'thorough': {'mc': [dict(spec='Stop.tla', cfg='Stop_%s.cfg' % c, workers=2) for c in ('thorough', 'plain')], 'traces': [restart(160, 60, 60)]}}
# --- backup jobs
def bkjob(shards, cfg):
    return dict(mode='bkjob', shards=shards, spec='BackupTrace', watchdog='60s', gen=dict(spec='BackupGen.tla', cfg=cfg, exhaustive=True))

PLAN['C23'] = {'quick': {'mc': [mc('Backup')], 'traces': [bkjob(24, 'BackupGen.cfg')]},
               'thorough': {'mc': [mc('Backup', 'Backup_thorough', workers=4)], 'traces': [bkjob(160, 'BackupGen_thorough.cfg')]}}
# --- limit on updates, shutdown
def limit(profile, shards, cfg, num=0, depth=0, **kw):
    g = dict(spec='LimitGen.tla', cfg='LimitGen_%s.cfg' % cfg)
    g.update(dict(num=num, depth=depth) if num else dict(exhaustive=True))
    return dict(mode='limit', profile=profile + cfg[-1], shards=shards, spec='LimitTrace', watchdog='60s', gen=g, **kw)

PLAN['C21'] = {'quick': {'mc': [mc('LimitImpl', 'LimitImpl_quick'), mc('LimitImpl', 'LimitImpl_live')],
                         'traces': [limit('k', 6, 'all1'), limit('k', 6, 'all2'), limit('k', 2, 'sim2', 60, 80), limit('k', 2, 'sim3', 60, 100),
                                    limit('k', 1, 'sim0', 40, 80), limit('quit', 2, 'quit1', 50, 40), limit('quit', 2, 'quit2', 50, 50), limit('quit', 2, 'quit3', 50, 60)]},
               'thorough': {'mc': [mc('LimitImpl', 'LimitImpl_thorough', workers=4, heap='8g', timeout=2500), mc('LimitImpl', 'LimitImpl_live')],
                            'traces': [limit('k', 16, 'long1'), limit('k', 16, 'long2'), limit('k', 16, 'sim1', 200, 60), limit('k', 24, 'sim2', 200, 80),
                                       limit('k', 24, 'sim3', 200, 100), limit('k', 4, 'sim0', 200, 80), limit('quit', 16, 'quit1', 100, 40),
                                       limit('quit', 16, 'quit2', 100, 50), limit('quit', 16, 'quit3', 100, 60)]}}
NOTES = {}
