"""C05: degradation never heals under milder or non-degrading stress."""
from dst import deg, world as W
from dst.props.c04 import C04


class C05(C04):
    id = 'C05'
    rule = ('Random mechanisms with thresholds and saturation levels that differ per device, or steep condition dependence, '
            'under stress histories that alternate harsh, mild and non-degrading conditions, some with concurrent '
            'simulations or an aborted run before; every device is checked for healing, holding and later progress.')

    def gen(self, rng, tier):
        sc = deg.gen_deg_world(rng, ['thr', 'thrl', 'thrl', 'sat', 'satl', 'pow', 'log'],
                               rng.choice([[25, 40, 85, 125, 150], [25, 84, 85, 121, 123, 125]]),
                               W.some(rng, [2, 3, 4, 6], (12, 25)), two=rng.random() < 0.2)
        for m in sc['world']['prms']['p']['mechs'].values():
            if m['fam'] == 'pow':
                m['g'] = rng.choice([3.0, 8.0])
        if rng.random() < 0.15:
            # saturation levels that differ by a few per cent at most
            for m in sc['world']['prms']['p']['mechs'].values():
                if m['fam'] not in ('sat', 'satl'):
                    m.update(fam='sat', latents={'a': m['latents']['a']})
                m['tau'] = rng.choice([10, 10, 40])
            for s in sc['world']['steps']:
                if s['t'] == 's':
                    s['conds']['temp'] = rng.choice([117, 119, 120.5, 122, 123, 124, 125])
                    s['us'] = int(rng.choice([1, 50, 80, 200, 1000]) * 3600e6)
        return sc


PROP = C05()
