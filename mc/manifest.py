"""python -m mc.manifest : rewrite MANIFEST.json from the list of implemented checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = ('explicit-state exhaustive enumeration of every random outcome of the real code (controlled random generator, '
        'state merging, exact law of the outcome compared with the specified law)')
HIST = ('explicit-state search over all operation sequences of the real objects up to a bound')
NOTES = {
    'C01': (ENUM, 'bounded: ground sets <= 6 (7), every mode and parametrization, every draw'),
    'C02': (ENUM, 'bounded: ground sets <= 6 (7), all sizes, every mode and parametrization, every draw'),
    'C03': (ENUM, 'bounded: real and complex projections of dimension <= 5 (6), every draw'),
    'C04': (ENUM, 'bounded: ground sets <= 4 (5), every admissible start state, every one-step transition'),
    'C05': (ENUM, 'bounded: chains of <= 4 states, every outcome of every draw, every clock reading schedule'),
    'C06': (HIST + '; in every state ' + ENUM, 'bounded: ground sets of size 3 (4), BFS over about 20 operations'),
    'C07': (HIST + ', kernels compared with their definition in every state', 'bounded: ground sets <= 4, all orders of requests'),
    'C08': (HIST + '; last call: ' + ENUM, 'bounded: all operation sequences of length <= 3 (4)'),
    'C15': ('explicit enumeration of all words / permutations up to a bound, every reachable tableau state of the real insertion '
            'machine checked against tableau and Greene invariants', 'bounded: words of length <= 9, permutations <= 7 (8)'),
    'C16': (ENUM, 'bounded: permutations <= 7 (8), Poisson draws <= 7 (8)'),
    'C17': (ENUM, 'bounded: sizes <= 5-12, several bases and proportions'),
    'C23': ('explicit enumeration of all spectra over an alphabet up to a length; every state (k, n) of the real recursion '
            'compared with exact rationals', 'bounded: 7 values, length <= 5 (6)'),
    'C11': (ENUM, 'bounded: ground sets <= 3 (4), every dictionary, every outcome of one rejection round'),
    'C12': (ENUM + '; every trajectory of the rescaling search with exact inner laws', 'bounded: ground sets <= 3, <= 3 trials; '
            'search trajectories <= 8 (14) trials on ground sets <= 4'),
    'C13': (ENUM, 'bounded: ground sets <= 4 (5), every previous dictionary, every selection outcome'),
    'C14': (ENUM, 'bounded: all connected labelled graphs on <= 4 nodes, 5 (6) nodes up to isomorphism'),
    'C18': ('explicit enumeration of all (N, d) up to a bound, every evaluation form on a quadrature-exact grid of points and on '
            'every critical point of the bounded polynomials', 'bounded: d <= 3 (4), N <= 130, 12 parameter configurations'),
    'C19': (ENUM + ' on quadrature-exact nodes for the continuous draws', 'bounded: d <= 2 (3), N <= 4 (5)'),
    'C20': ('explicit-state enumeration of every quadrature node of every draw of the real models; the exact moments of the '
            'outcome compared with loop equations / Selberg averages', 'bounded: N <= 4, total degree <= 6, beta grid'),
    'C09': (ENUM + ', arguments compared byte for byte after every path', 'bounded: about 330 entry points, <= 400 (4000) paths '
            'each; FiniteDPP request sequences of length <= 2 (3)'),
    'C10': (ENUM + ', the global generator replaced by one that refuses to be used; ' + HIST + ', run twice',
            'bounded: about 230 entry points, <= 200 (2000) paths each; histories of length <= 2 (3)'),
    'C21': ('explicit enumeration of every sequence of values returned by the conditional samplers over an alphabet, every call of '
            'the real Gibbs sampler compared with an independent mirror', 'bounded: sizes <= 5 (6), degree <= 6, <= 2 passes'),
    'C22': ('exhaustive enumeration of the branches and of a grid of values of each draw of one round of the real rejection '
            'samplers, the law of the accepted value compared with the target', 'bounded: about 40 (potential, shape) pairs, grid '
            'of 40 (200) values per branch'),
    'C24': ('explicit enumeration of every documented refusal in every object state reached by <= 2 operations, the object, the '
            'arguments and all later seeded operations compared with a twin that never saw the request', 'bounded: all public '
            'classes, ground sets <= 4, histories <= 2 (3)'),
    'C25': (HIST + ', every observer in every state, and every leaf of the tree of random outcomes of every entry point',
            'bounded: ground sets <= 4, histories <= 2 (3), <= 60 (600) outcomes per entry point'),
    'C27': ('explicit enumeration of a lattice of coefficients and of the quadrature nodes of the real densities against loop '
            'equations and exact moments', 'bounded: 60 (300) coefficient combinations, 12 loop equations'),
    'C28': (ENUM + ', with an exact linear-programming stand-in for cvxopt', 'bounded: rank <= 3, <= 5 vectors, chains of 3 (4) states'),
    'C29': ('explicit enumeration of all evaluation histories, of a grid of arguments and of all quadrature orders of a range '
            'against an independent reference', 'bounded: arguments in [-12, 20] step 0.05 (0.01), orders 18..70 (120)'),
    'C30': (HIST + ', normalisation and drawn laws compared in every state with the parameters of the last accepted call',
            'bounded: sequences of <= 3 (4) requests, beta in {0, 1/2, 1, 2, 4}, sizes <= 6'),
    'C31': (ENUM + ' of the dictionary selection; the announced constants compared with their definition for every dictionary',
            'bounded: data sets of <= 4 points, 7 target sizes, 3 oversampling parameters'),
    'C32': ('explicit enumeration of all small matrices over finite sets of rational entries and of all argument forms, decided '
            'in exact arithmetic', 'bounded: 2x2 grids of step 1/10 (1/20), 3x3 over 5 values, 3x2 and 2x3 over 4-5 values, index lists <= 3'),
    'C26': ('explicit-state enumeration of every quadrature node of every draw of the real models; the exact moments of the '
            'outcome compared with circular loop equations / Ginibre integrals', 'bounded: N <= 4, total degree <= 4, beta <= 5'),
}
NA = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    have = [p for p in props if os.path.exists(os.path.join(HERE, 'mc', 'checks', p.lower() + '.py')) and p in NOTES]
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -m compileall -q mc && ./check C23 quick' if 'C23' in have
               else '/opt/venv/bin/python -m compileall -q mc',
               checks=[dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                            technique=NOTES[p][0], level='model_checking', level_note=NOTES[p][1]) for p in have],
               not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in have])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
