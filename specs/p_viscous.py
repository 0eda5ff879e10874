from .element import jobs_for


def jobs(tier):
    return jobs_for('local_cases', ['ns', 'nsc'], tier) + jobs_for('reconcile_cases', ['ns'], tier)
