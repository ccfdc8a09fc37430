"""Crashes that are known findings."""


def known_crash(case, text):
    """F07: Hessians of squared losses that are not decomposable are numerically singular if the loss vanishes, LAPACK's error is thrown in
    a parallel region and ends the process."""
    loss = str((case.get('config') or {}).get('loss'))
    return 'DSYSV terminated with non-zero info code' in text and loss.startswith('squared-') and loss.endswith('non-decomposable')
