"""Writes data sets and runs the testbed."""
import contextlib
import csv
import io
import logging
import os
import random
import sys
from xml.sax.saxutils import quoteattr

import numpy as np

from mlrl.testbed import data as D
from mlrl.testbed import main as M
from mlrl.testbed import data_splitting as S

NAMES = ['a', 'b1', 'X_0', 'y0', 'y10', 'y2', 'f 1', "it's", 'Größe', 'a.b', 'x,y', '{set}', '50%', 'A', 'class', 'attr', 'real',
         'numeric', 'label one', 'l<2>', 'p&q', 'data']
VALUES = ['red', 'blue', 'light green', '0', '1', '-2.5', 'x,y', 'a%b', 'Blue', '{1}', 'TRUE', 'ä']


def number(r):
    return r.choice([0, 0, 1, 1, 2, 3, 7, 0.5, -1, -0.25, 1.75, 100, 255, 256, 1e-3, -3.25e5, 12345.0])


def cell(r, kind, nominal, zero):
    if r.random() < 0.06:
        return None
    if r.random() < zero:
        return 0
    if kind == 'nominal':
        return r.randrange(len(nominal))
    return r.randint(-3, 5) if kind == 'integer' else number(r)


def quote(s, r=None):
    if all(c.isalnum() or c in '._-' for c in s) and s.isascii() and (r is None or r.random() < 0.7):
        return s
    return '"' + s + '"' if "'" in s or (r is not None and r.random() < 0.5) else "'" + s + "'"


def write(case, path, name, xml=None):
    """Writes an ARFF file and, if requested, a XML file, without using any code under test."""
    r = random.Random(case['style'])
    d = len(case['types'])
    m = len(case['y'][0])
    names = case['names']
    feats = [('@attribute', names[j], '{' + ','.join(quote(v, r) for v in case['nominal'][j]) + '}' if t == 'nominal' else t)
             for j, t in enumerate(case['types'])]
    outs = [('@ATTRIBUTE', names[d + k], 'numeric' if case.get('regression') else '{0,1}') for k in range(m)]
    relation = '' if case['xml'] else ': -C %d' % (m if case['start'] else -m)
    if relation and r.random() < 0.3:
        relation += ' -T 10'
    lines = ['% a comment', "@relation 'my data%s'" % relation, '']
    for key, n, t in (outs + feats if case['start'] else feats + outs):
        lines.append(f'{key} {quote(n, r)} {t.upper() if t[0] != "{" and r.random() < 0.3 else t}')
    lines += ['', r.choice(['@data', '@DATA', '@Data'])]
    for row, out in zip(case['x'], case['y']):
        cells = [('?' if v is None else quote(case['nominal'][j][v], r) if case['nominal'][j] is not None else repr(v), v == 0)
                 for j, v in enumerate(row)]
        labels = [(repr(v), v == 0) for v in out]
        cells = labels + cells if case['start'] else cells + labels
        if case['sparse']:
            lines.append('{' + ', '.join('%d %s' % (j, t) for j, (t, zero) in enumerate(cells)
                                         if not zero or r.random() < case.get('zeros', 0)) + '}')
        else:
            lines.append(r.choice([',', ', ']).join(t for t, _ in cells))
        if r.random() < 0.1:
            lines.append(r.choice(['', '% {comment}', '  ']))
    with open(os.path.join(path, name + '.arff'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + r.choice(['', '\n', '\n\n']))
    if case['xml']:
        labels = names[d:d + m]
        if case.get('xml_order'):
            random.Random(case['xml_order']).shuffle(labels)
        with open(os.path.join(path, (xml or name) + '.xml'), 'w', encoding='utf-8') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?>\n<labels xmlns="http://mulan.sourceforge.net/labels">\n')
            f.write(''.join('<label name=%s></label>\n' % quoteattr(v) for v in labels) + '</labels>\n')


class Recorder(S.DataSplitter.Callback):

    def __init__(self):
        self.runs = []

    def train_and_evaluate(self, meta_data, data_split, train_x, train_y, test_x, test_y):
        self.runs.append(dict(meta=meta_data, split=data_split, train_x=train_x, train_y=train_y, test_x=test_x, test_y=test_y))


def split(kind, path, case, current_fold=-1):
    data_set = S.DataSet(path, 'data', case['one_hot'])
    if kind == 'none':
        splitter = S.NoSplitter(data_set)
    elif kind == 'cv':
        splitter = S.CrossValidationSplitter(data_set, num_folds=case['folds'], current_fold=current_fold, random_state=case['seed'])
    else:
        splitter = S.TrainTestSplitter(data_set, test_size=case['test_size'], random_state=case['seed'])
    logging.disable(logging.CRITICAL)
    recorder = Recorder()
    try:
        splitter.run(recorder)
    finally:
        logging.disable(logging.NOTSET)
    return recorder.runs


def run(args):
    """Runs the command line program and returns what it writes to the console."""
    root = logging.getLogger()
    handlers, level, argv = list(root.handlers), root.level, sys.argv
    out = io.StringIO()
    for h in handlers:
        root.removeHandler(h)
    sys.argv = ['testbed'] + [str(a) for a in args]
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            M.main()
    except SystemExit as e:
        raise ValueError('The program has been terminated: ' + out.getvalue()[-300:]) from e
    finally:
        logging.disable(logging.CRITICAL)
        sys.argv = argv
        for h in list(root.handlers):
            root.removeHandler(h)
        for h in handlers:
            root.addHandler(h)
        root.setLevel(level)
    return out.getvalue()


def messages(text):
    """The messages that have been written to the console"""
    result = []
    for line in text.split('\n'):
        if line.startswith(('INFO ', 'ERROR ', 'WARNING ', 'DEBUG ')):
            result.append(line.split(' ', 1)[1])
        elif result:
            result[-1] += '\n' + line
    return result


def read_csv(path):
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.DictReader(f, delimiter=',', quotechar='"'))


def read_arff(path):
    """Reads an ARFF file written by the testbed: attribute names, their types and the values."""
    names, types, rows, data = [], [], [], False
    with open(path, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith('%'):
                continue
            if data:
                if line.startswith('{'):
                    row = [0.0] * len(names)
                    for item in filter(None, (v.strip() for v in line.strip('{} ').split(','))):
                        i, v = item.split(' ')
                        row[int(i)] = float(v)
                else:
                    row = [float(v) for v in line.split(',')]
                rows.append(row)
            elif line.upper().startswith('@DATA'):
                data = True
            elif line.upper().startswith('@ATTRIBUTE'):
                rest = line.split(' ', 1)[1].strip()
                if rest[0] in '\'"':
                    end = rest.index(rest[0], 1)
                    names.append(rest[1:end])
                    types.append(rest[end + 1:].strip())
                else:
                    n, t = rest.split(' ', 1)
                    names.append(n)
                    types.append(t.strip())
    return names, types, rows
