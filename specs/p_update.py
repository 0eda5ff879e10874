from .element import jobs_for


def jobs(tier):
    return jobs_for('local_cases', ['euler'], tier)
