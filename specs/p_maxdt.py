from .element import jobs_for


def jobs(tier):
    return jobs_for('max_dt_cases', ['euler', 'ns', 'nsc', 'adv', 'sav', 'fta'], tier)
