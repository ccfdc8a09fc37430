"""Parameters are validated, and what is given for them takes effect, no matter how it is spelled."""
from core import *
import gen

FORMATS = ('auto', {'auto': {}, 'dense': {}, 'sparse': {}})
THREADS = {'num_preferred_threads': (0, 'int', ['-1'])}
SIZES = lambda default: {'sample_size': (default, 'float', ['0', '1', '1.1', '-0.5', 'nan']), 'min_samples': (1, 'int', ['0', '-1']),
                         'max_samples': (0, 'int', ['-1'])}
HOLDOUT = {'holdout_set_size': (0.33, 'float', ['0', '1', '1.5', '-0.2', 'nan'])}
BINNING = {'bin_ratio': (0.33, 'float', ['0', '1', '1.5', '-1', 'nan']), 'min_bins': (2, 'int', ['1', '0', '-1']), 'max_bins': (0, 'int', ['-1'])}
REFINEMENT = {'min_coverage': (1, 'int', ['0', '-1']), 'min_support': (0.0, 'float', ['-0.1', '1.1', 'nan']),
              'max_head_refinements': (1, 'int', ['-1']), 'recalculate_predictions': (True, 'bool', [])}
PRUNING = {'use_holdout_set': (True, 'bool', []), 'remove_unused_rules': (True, 'bool', []), 'min_rules': (100, 'int', ['-1'])}
CALIBRATION = {'use_probability_calibration': (True, 'bool', [])}
BINARY = dict(CALIBRATION, based_on_probabilities=(False, 'bool', []))

COMMON = {
    'feature_format': FORMATS, 'output_format': FORMATS, 'prediction_format': FORMATS,
    'random_state': (1, 'int', ['0', '-1']), 'time_limit': (0, 'int', ['-1']), 'max_rules': (None, 'int', ['-1']),
    'rule_induction': ('top-down-greedy', {
        'top-down-greedy': dict(REFINEMENT, max_conditions=(0, 'int', ['-1'])),
        'top-down-beam-search': dict(REFINEMENT, max_conditions=(0, 'int', ['-1', '1']), beam_width=(4, 'int', ['1', '0', '-1']),
                                     resample_features=(False, 'bool', []))
    }),
    'rule_pruning': ('none', {'none': {}, 'irep': {}}),
    'sequential_post_optimization': ('false', {
        'false': {},
        'true': {'num_iterations': (2, 'int', ['0', '-1']), 'refine_heads': (False, 'bool', []), 'resample_features': (True, 'bool', [])}
    }),
    'output_sampling': ('none', {
        'none': {}, 'round-robin': {},
        'without-replacement': {'sample_size': (0.33, 'float', ['-0.1', '1.5', 'nan']), 'min_samples': (1, 'int', ['0', '-1']),
                                'max_samples': (1, 'int', ['-1'])}
    }),
    'feature_sampling': ('without-replacement', {
        'none': {},
        'without-replacement': {'sample_size': (0, 'float', ['-0.1', '1.5', 'nan']), 'min_samples': (1, 'int', ['0', '-1']),
                                'max_samples': (0, 'int', ['-1']), 'num_retained': (0, 'int', ['-1'])}
    }),
    'instance_sampling': ('none', {
        'none': {}, 'with-replacement': SIZES(None), 'without-replacement': SIZES(0.66), 'stratified-output-wise': SIZES(0.66),
        'stratified-example-wise': SIZES(0.66)
    }),
    'feature_binning': ('none', {'none': {}, 'equal-width': BINNING, 'equal-frequency': BINNING}),
    'parallel_prediction': ('true', {'false': {}, 'true': THREADS}),
}
BOOSTING = dict(COMMON, **{
    'loss': ('logistic-decomposable', {k: {} for k in gen.CLS_LOSSES}),
    'shrinkage': (0.3, 'float', ['0', '-0.1', '1.1', 'nan']),
    'l1_regularization_weight': (0.0, 'float', ['-0.1', '-1', 'nan']),
    'l2_regularization_weight': (1.0, 'float', ['-0.1', '-1', 'nan']),
    'default_rule': ('auto', {'auto': {}, 'true': {}, 'false': {}}),
    'head_type': ('auto', {
        'auto': {}, 'single': {}, 'complete': {},
        'partial-fixed': {'output_ratio': (0.0, 'float', ['-0.1', '1', '1.5', 'nan']), 'min_outputs': (2, 'int', ['1', '0', '-1']),
                          'max_outputs': (0, 'int', ['-1'])},
        'partial-dynamic': {'threshold': (0.02, 'float', ['0', '1', '1.5', '-1', 'nan']), 'exponent': (2.0, 'float', ['0.9', '0', '-2', 'nan'])}
    }),
    'holdout': ('auto', {'auto': {}, 'none': {}, 'random': HOLDOUT, 'stratified-output-wise': HOLDOUT, 'stratified-example-wise': HOLDOUT}),
    'global_pruning': ('none', {
        'none': {}, 'post-pruning': dict(PRUNING, interval=(1, 'int', ['0', '-1'])),
        'pre-pruning': dict(PRUNING, update_interval=(1, 'int', ['0', '-1']), stop_interval=(1, 'int', ['0', '-1']),
                            num_past=(50, 'int', ['0', '-1']), num_recent=(50, 'int', ['0', '-1']),
                            aggregation=('avg', 'enum', ['median', 'MIN', 'minimum']), min_improvement=(0.005, 'float', ['-0.1', '1.5', 'nan']))
    }),
    'statistic_format': ('auto', {'auto': {}, 'dense': {}, 'sparse': {}}),
    'parallel_rule_refinement': ('auto', {'auto': {}, 'false': {}, 'true': THREADS}),
    'parallel_statistic_update': ('auto', {'auto': {}, 'false': {}, 'true': THREADS}),
})
CLASSIFIER = dict(BOOSTING, **{
    'label_binning': ('auto', {
        'none': {}, 'auto': {},
        'equal-width': {'bin_ratio': (0.04, 'float', ['0', '1', '1.5', '-1', 'nan']), 'min_bins': (1, 'int', ['0', '-1']), 'max_bins': (0, 'int', ['-1'])}
    }),
    'marginal_probability_calibration': ('none', {'none': {}, 'isotonic': {'use_holdout_set': (True, 'bool', [])}}),
    'joint_probability_calibration': ('none', {'none': {}, 'isotonic': {'use_holdout_set': (True, 'bool', [])}}),
    'binary_predictor': ('auto', {'auto': {}, 'output-wise': BINARY, 'example-wise': BINARY, 'gfm': CALIBRATION}),
    'probability_predictor': ('auto', {'auto': {}, 'output-wise': CALIBRATION, 'marginalized': CALIBRATION}),
})
REGRESSOR = {k: v for k, v in dict(BOOSTING, loss=('squared-error-decomposable', {k: {} for k in gen.REG_LOSSES})).items()
             if k not in ('label_binning', 'output_format')}
HEURISTIC = {k: {} for k in ('accuracy', 'precision', 'recall', 'laplace', 'weighted-relative-accuracy')}
HEURISTIC['f-measure'] = {'beta': (0.25, 'float', ['-0.5', 'nan'])}
HEURISTIC['m-estimate'] = {'m': (22.466, 'float', ['-0.5', 'nan'])}
SECO = dict(COMMON, **{
    'heuristic': ('f-measure', HEURISTIC), 'pruning_heuristic': ('accuracy', HEURISTIC),
    'lift_function': ('peak', {
        'none': {}, 'kln': {'k': (None, 'float', ['-0.5', 'nan'])},
        'peak': {'peak_label': (2, 'int', ['-1']), 'max_lift': (1.08, 'float', ['0.9', '0', '-2', 'nan']), 'curvature': (1.0, 'float', ['0', '-1', 'nan'])}
    }),
    'head_type': ('single', {'single': {}, 'partial': {}}),
    'rule_pruning': ('irep', COMMON['rule_pruning'][1]), 'instance_sampling': ('stratified-output-wise', COMMON['instance_sampling'][1]),
    'feature_sampling': ('none', COMMON['feature_sampling'][1]),
    'holdout': ('none', {'none': {}, 'random': HOLDOUT, 'stratified-output-wise': HOLDOUT, 'stratified-example-wise': HOLDOUT}),
    'parallel_rule_refinement': ('true', {'false': {}, 'true': THREADS}),
    'parallel_statistic_update': ('false', {'false': {}, 'true': THREADS}),
})
SPEC = {'bc': CLASSIFIER, 'br': REGRESSOR, 'sc': SECO}
REG_FOREIGN = {'instance_sampling': ['stratified-output-wise', 'stratified-example-wise'], 'holdout': ['stratified-output-wise', 'stratified-example-wise'],
               'loss': [v for v in gen.CLS_LOSSES if v not in gen.REG_LOSSES]}


def generate(r):
    kind = gen.pick(r, [(3, 'bc'), (2, 'br'), (2, 'sc')])
    ds = gen.dataset(r, kind, max_n=25, max_d=4, max_l=4, min_n=4)
    config = gen.seco_config(r, max_rules=8) if kind == 'sc' else gen.boosting_config(r, kind, max_rules=8)
    if kind == 'bc':
        for k in ('marginal_probability_calibration', 'joint_probability_calibration'):
            if r.random() < 0.2:
                config[k] = r.choice(['isotonic', 'isotonic{use_holdout_set=false}'])
        if r.random() < 0.3:
            config['binary_predictor'] = r.choice(['output-wise', 'example-wise', 'gfm', 'output-wise{based_on_probabilities=true}'])
    if r.random() < 0.7:
        config.pop('random_state', None)
    return dict(kind=kind, config=config, mode=r.choice(['spelling', 'spelling', 'invalid']), q=gen.queries(r, ds['x'], len(ds['x'][0]), max_q=8),
                choice=[r.randrange(1 << 20) for _ in range(60)], **ds)


class Choice:
    """Decisions that can be reduced when shrinking, 0 means that nothing is changed."""

    def __init__(self, values):
        self.values, self.i = values, -1

    def __call__(self, n):
        self.i += 1
        return self.values[self.i % len(self.values)] % n if self.values else 0


def spell(v, kind, c):
    if kind == 'int':
        return str(int(v))
    if kind == 'float':
        v = float(v)
        return [repr(v), '%.6f' % v if float('%.6f' % v) == v else repr(v), '%.17e' % v, '+' + repr(v) if v >= 0 else repr(v)][c(4)]
    if kind == 'bool':
        return str(v).lower()
    return str(v)


def permute(items, c):
    items, result = list(items), []
    while items:
        result.append(items.pop(c(len(items))))
    return result


def respell(kind, config, c):
    """An equivalent configuration"""
    spec, result = SPEC[kind], {}
    for k, v in config.items():
        s = spec.get(k)
        if s is None:
            result[k] = v
        elif isinstance(s[1], dict):
            name, opts = parse_value(v)
            known = s[1][name]
            opts = dict(opts)
            for o, (default, _, _) in known.items():
                if o not in opts and default is not None and c(2) == 1:
                    opts[o] = default
            if k == 'global_pruning' and name == 'pre-pruning' and 'stop_interval' not in parse_value(v)[1]:
                opts.pop('stop_interval', None)
            parts = [o + '=' + (spell(opts[o], known[o][1], c) if o in known else str(opts[o])) for o in permute(sorted(opts), c)]
            result[k] = name + (['{', ' {', '  {'][c(3)] + ','.join(parts) + '}' if parts else ['', '{}', ' ', ' {}'][c(4) if known else 0])
        else:
            result[k] = [v, spell(v, s[1], c), float(v) if s[1] == 'float' else v][c(3)]
    for k, s in spec.items():
        if k not in config and s[0] is not None and c(3) == 1:
            if k == 'loss' and kind == 'bc' or k != 'loss':
                result[k] = s[0]
    return {k: result[k] for k in permute(list(result), c)}


def invalidate(kind, config, c):
    """-> the name of a parameter and an invalid value"""
    spec = SPEC[kind]
    k = sorted(spec)[c(len(spec))]
    s = spec[k]
    if not isinstance(s[1], dict):
        bad = s[2] + ['abc', '', '1e', '0x1'] + (['1.5', '1e3'] if s[1] == 'int' else [])
        v = bad[c(len(bad))]
        if v in s[2] and v != 'nan' and c(2):
            v = float(v) if s[1] == 'float' else int(v)
        return k, v
    names = sorted(s[1])
    name = names[c(len(names))]
    opts = s[1][name]
    if kind == 'br' and k in REG_FOREIGN and c(3) == 0:
        v = REG_FOREIGN[k]
        return k, v[c(len(v))]
    if opts and c(3) > 0:
        o = sorted(opts)[c(len(opts))]
        default, t, bad = opts[o]
        default = 0.5 if default is None else default
        bad = list(bad) + ['abc', ''] + (['1.5', '1e3'] if t == 'int' else ['1', 'True', 'FALSE', '0'] if t == 'bool' else [])
        wrong = o + '=' + bad[c(len(bad))]
        wrong = [wrong, wrong, wrong, o, o + '=' + spell(default, t, c) + '=1', '=1', o + 'x=1', 'foo=1', o.upper() + '=1', '{' + o + '=' + spell(default, t, c) + '}'][c(10)]
        others = [p + '=' + spell(opts[p][0], opts[p][1], c) for p in sorted(opts) if p != o and opts[p][0] is not None and c(4) == 1]
        others.insert(c(len(others) + 1), wrong)
        return k, name + '{' + ','.join(others) + '}'
    own = {p for v in s[1].values() for p in v}
    foreign = sorted(own - set(opts)) + ['foo']
    bad = ['foo', 'none-' if k.endswith('_format') else '', name + 'x', name.upper(), ' ' + name, name[:-1], name + '{', name + '}', name + '{' + foreign[c(len(foreign))] + '=1}', name + ' x',
           name + '{}{}', name + '{foo}', name + '-', 'x' + name, name + ',', name + name, 'Auto', name + '=1']
    return k, bad[c(len(bad))]


def outcome(case, learner):
    try:
        learner.fit(x_of(case), y_of(case))
    except (ValueError, OverflowError) as e:
        return str(e), None
    try:
        learner.predict(x_of(case, 'q'))
    except RuntimeError as e:
        if 'not supported' not in str(e):
            raise
    except (ValueError, OverflowError) as e:
        return str(e), None
    return None, (rules_of(learner.model_), observe(learner, x_of(case, 'q'), case['kind']))


def compare(what, a, b):
    if (a[0] is None) != (b[0] is None):
        fail('%s: %s, but %s', what, *('accepted' if v[0] is None else 'rejected (%s)' % v[0][:200] for v in (a, b)))
    if a[0] is None:
        diff = same_rules(a[1][0], b[1][0])
        if diff:
            fail('%s: models differ, %s', what, diff)
        diff = same_observations(a[1][1], b[1][1])
        if diff:
            fail('%s: predictions differ, %s', what, diff)


def check(case):
    check_domain(case)
    gen.require_valid(case)
    kind, config, c = case['kind'], case['config'], Choice(case['choice'])
    learner = lambda params: make(kind, params, case['nominal'], case['ordinal'])
    base = outcome(case, learner(config))
    if case['mode'] == 'spelling':
        other = respell(kind, config, c)
        gen.require_valid(dict(case, config={k: v for k, v in other.items() if isinstance(v, str) or k not in SPEC[kind] or not isinstance(SPEC[kind][k][1], dict)}))
        compare('%s is equivalent to %s' % (config, other), base, outcome(case, learner(other)))
        return dict(nontrivial=base[0] is None and len(base[1][0]) > 1 and other != config, tags=dict(kind=kind, mode='spelling'))
    if base[0] is not None:
        raise Skip('rejected')
    k, v = invalidate(kind, config, c)
    params = dict(config, **{k: v})
    used = learner(params)
    message, _ = outcome(case, used)
    if message is None:
        fail('the invalid value "%s" of the parameter %s is accepted: %s', v, k, params)
    used.set_params(**{k: config.get(k)})
    compare('learner that has been given the invalid value "%s" of the parameter %s before' % (v, k), base, outcome(case, used))
    return dict(nontrivial=True, tags=dict(kind=kind, mode='invalid', parameter=k))


def shrink_candidates(case):
    yield dict(case, mode='spelling' if case['mode'] == 'spelling' else 'invalid', choice=[0] * len(case['choice']))
    for k in case['config']:
        if k not in ('max_rules', 'loss'):
            yield dict(case, config={a: b for a, b in case['config'].items() if a != k})
    for i, v in enumerate(case['choice']):
        if v:
            yield dict(case, choice=case['choice'][:i] + [0] + case['choice'][i + 1:])
    for k in ('x', 'q'):
        for i in range(len(case[k])):
            if k == 'x' and len(case['x']) > 4:
                yield dict(case, x=case['x'][:i] + case['x'][i + 1:], y=case['y'][:i] + case['y'][i + 1:])
            elif k == 'q' and len(case['q']) > 1:
                yield dict(case, q=case['q'][:i] + case['q'][i + 1:])
