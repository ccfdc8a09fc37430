"""Reference implementation of the objectives used for learning SeCo models (plain Python/numpy)."""
import math

import numpy as np

from core import parse_value


def div(a, b):
    return a / b if b != 0 else 0.0


class Heuristic:
    """Quality of a rule for a label, given the (weighted) numbers of covered/uncovered examples the prediction is right/wrong for."""

    def __init__(self, text, default='f-measure'):
        self.name, self.opts = parse_value(text)
        self.name = self.name or default
        self.beta = float(self.opts.get('beta', 0.25))
        self.m = float(self.opts.get('m', 22.466))

    def __call__(self, ce, ci, ue, ui):
        covered, total = ce + ci, ce + ci + ue + ui
        name = self.name
        if name == 'precision' or (name == 'f-measure' and self.beta == 0) or (name == 'm-estimate' and self.m == 0):
            return div(ce, covered)
        if name == 'accuracy':
            return div(ce + ui, total)
        if name == 'recall' or (name == 'f-measure' and math.isinf(self.beta)):
            return div(ce, ce + ue)
        if name == 'laplace':
            return (ce + 1) / (covered + 2)
        if name == 'weighted-relative-accuracy' or (name == 'm-estimate' and math.isinf(self.m)):
            return (covered / total) * (ce / covered - (ce + ue) / total) if covered > 0 and total > 0 else 0.0
        if name == 'f-measure':
            b = self.beta ** 2
            return div((1 + b) * ce, (1 + b) * ce + b * ue + ci)
        if name == 'm-estimate':
            return (ce + self.m * (ce + ue) / total) / (covered + self.m) if total > 0 else 0.0
        raise ValueError(name)


class Lift:

    def __init__(self, text, num_labels, default='peak'):
        self.name, opts = parse_value(text)
        self.name = self.name or default
        self.k = float(opts.get('k', 0.2))
        self.peak = int(opts.get('peak_label', 2))
        self.max_lift, self.curvature = float(opts.get('max_lift', 1.08)), float(opts.get('curvature', 1.0))
        self.num = num_labels
        self.modelled = not (self.name == 'peak' and self.peak == 0)
        if self.name == 'peak':
            self.peak = min(self.peak, num_labels)

    def __call__(self, n):
        if self.name == 'none':
            return 1.0
        if self.name == 'kln':
            return 1 + self.k * math.log(n)
        if n == self.peak:
            return self.max_lift
        norm = (n - 1) / (self.peak - 1) if n < self.peak else (self.num - n) / (self.num - self.peak)
        return 1 + norm ** (1 / self.curvature) * (self.max_lift - 1)


def majority(y):
    """The labels that are predicted by default."""
    return (2 * y.sum(axis=0) > y.shape[0]).astype(int)
