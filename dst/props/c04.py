"""C04: degradation accumulates by equivalent stress time over any stress history."""
from dst import deg, seams, world as W
from dst.core import Prop


class C04(Prop):
    id = 'C04'
    runs = {'quick': 900, 'thorough': 50000}
    rule = ('Random monotone mechanisms (power, voltage power, logarithmic, saturating; both directions; additive and '
            'multiplicative parameters; all time units), random stress histories with per-chip noisy temperature, some with '
            'concurrent simulations of the same objects or an aborted run before; every reading of every device against '
            'the interval reference.')
    measure = 'distinct (mechanism family, unit, stress count, concurrency) configurations and switch sequences'
    assumptions = ['Readings are judged within 1e-4 relative equivalent time plus 1.1e-3 time units',
                   'Latent and initial values are read from the documented SimState attributes']
    shrink_lists, shrink_ints = deg.SHRINK_LISTS, deg.SHRINK_INTS

    def setup(self):
        seams.lib()
        seams.monitor()

    def gen(self, rng, tier):
        return deg.gen_deg_world(rng, ['pow', 'pow', 'vpow', 'log', 'sat'], [55, 85, 85, 105, 125, 140],
                                 W.some(rng, [1, 2, 3, 4, 6], (12, 25)))

    def run(self, sc, ctx):
        w, st, rep = deg.run_world(sc, ctx)
        deg.judge(sc, ctx, st, rep)
        p = sc['world']['prms']['p']
        ctx.sig([(m['fam'], m.get('unit')) for m in p['mechs'].values()], p['eqn'], len(sc['world']['steps']),
                sc['noise'], bool(sc['abort']), len(sc['world']['env']))


PROP = C04()
