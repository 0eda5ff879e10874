from .interface import jobs_for


def jobs(tier):
    return jobs_for('flux_cases', tier)
