from .element import jobs_for


def jobs(tier):
    return jobs_for('local_cases', ['adv', 'sav', 'fta'], tier) + jobs_for('reconcile_cases', ['sav', 'fta'], tier)
